From b75a0d90d984173dded24c75315fc03ef0974850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:09 +0000
Subject: [PATCH 01/64] fix: int/uint nodes ignore their minimum when no
 maximum is configured

---
 src/ecoli_node_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_int.c b/src/ecoli_node_int.c
index 58c5f5a..3dd8b44 100644
--- a/src/ecoli_node_int.c
+++ b/src/ecoli_node_int.c
@@ -156,7 +156,7 @@ static int ec_node_int_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->i64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
@@ -268,7 +268,7 @@ static int ec_node_uint_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->u64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
-- 
2.43.0


From 34ddaa0b49feb96849e841f038d951debb2c82cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:09 +0000
Subject: [PATCH 02/64] fix: int/uint nodes accept a string that contains no
 digit

---
 src/ecoli_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 90728b8..7d6b717 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -113,7 +113,7 @@ int ec_str_parse_llint(const char *str, unsigned int base, int64_t min,
 		return -1;
 	}
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -146,7 +146,7 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 	if (*val > max)
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0)
 		return -1;
 
 	errno = save_errno;
-- 
2.43.0


From 4b517e232628a5807ab8a82d3237007d82add525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:09 +0000
Subject: [PATCH 03/64] fix: endless loop iterating completions when a group
 has no item of the type

---
 src/ecoli_complete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 40326ef..5ba4fb0 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -652,6 +652,7 @@ __ec_comp_iter_next(const struct ec_comp *comp, struct ec_comp_item *item,
 			if (cur_match->type & type)
 				return cur_match;
 		}
+		cur_grp = TAILQ_NEXT(cur_grp, next);
 	}
 
 	return NULL;
-- 
2.43.0


From 4b777d67325a94aed10b2afb6d3d892dd9aca053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:47 +0000
Subject: [PATCH 04/64] fix: subset leaves children of abandoned attempts in
 the parse tree

---
 src/ecoli_node_subset.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index ce22a64..98e18f8 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -33,6 +33,22 @@ struct parse_result {
 	size_t len;                 /* consumed strings */
 };
 
+/* move the children of "from" that follow "prev" (or all of them if prev is
+ * NULL) at the end of the children of "to". */
+static void
+move_children(struct ec_pnode *to, struct ec_pnode *from,
+	const struct ec_pnode *prev)
+{
+	struct ec_pnode *child, *next;
+
+	child = prev ? ec_pnode_next(prev) : ec_pnode_get_first_child(from);
+	for (; child != NULL; child = next) {
+		next = ec_pnode_next(child);
+		ec_pnode_unlink_child(child);
+		ec_pnode_link_child(to, child);
+	}
+}
+
 /* recursively find the longest list of nodes that matches: the state is
  * updated accordingly. */
 static int
@@ -44,13 +60,16 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	struct ec_strvec *childvec = NULL;
 	size_t i, j, len = 0;
 	struct parse_result best_result, result;
-	struct ec_pnode *best_parse = NULL;
+	struct ec_pnode *best_parse = NULL; /* holds the best children list */
+	struct ec_pnode *cur_parse = NULL;  /* same for the current result */
+	struct ec_pnode *last;
 	int ret;
 
 	if (table_len == 0)
 		return 0;
 
 	memset(&best_result, 0, sizeof(best_result));
+	last = ec_pnode_get_last_child(pstate);
 
 	child_table = ec_calloc(table_len - 1, sizeof(*child_table));
 	if (child_table == NULL)
@@ -88,17 +107,22 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 		if (ret < 0)
 			goto fail;
 
+		/* remove what this attempt added in the parse tree */
+		cur_parse = ec_pnode(NULL);
+		if (cur_parse == NULL)
+			goto fail;
+		move_children(cur_parse, pstate, last);
+
 		/* if result is not the best, ignore */
 		if (result.parse_len < best_result.parse_len) {
 			memset(&result, 0, sizeof(result));
-			ec_pnode_del_last_child(pstate);
+			ec_pnode_free(cur_parse);
 			continue;
 		}
 
 		/* replace the previous best result */
 		ec_pnode_free(best_parse);
-		best_parse = ec_pnode_get_last_child(pstate);
-		ec_pnode_unlink_child(best_parse);
+		best_parse = cur_parse;
 
 		best_result.parse_len = result.parse_len + 1;
 		best_result.len = len + result.len;
@@ -109,7 +133,8 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	*out = best_result;
 	ec_free(child_table);
 	if (best_parse != NULL)
-		ec_pnode_link_child(pstate, best_parse);
+		move_children(pstate, best_parse, NULL);
+	ec_pnode_free(best_parse);
 
 	return 0;
 
-- 
2.43.0


From ca63b7a0f646c0bb61e9d97c22b370406bf71a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:47 +0000
Subject: [PATCH 05/64] fix: subset completion alters the node it completes

---
 src/ecoli_node_subset.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index 98e18f8..5383a40 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -253,9 +253,23 @@ ec_node_subset_complete(const struct ec_node *node,
 			const struct ec_strvec *strvec)
 {
 	struct ec_node_subset *priv = ec_node_priv(node);
+	struct ec_node **table;
+	int ret;
+
+	if (priv->len == 0)
+		return 0;
 
-	return __ec_node_subset_complete(priv->table, priv->len, comp,
-					strvec);
+	/* work on a copy: the entries of the table are temporarily removed,
+	 * and the same node can be completed again in case of a loop. */
+	table = ec_calloc(priv->len, sizeof(*table));
+	if (table == NULL)
+		return -1;
+	memcpy(table, priv->table, priv->len * sizeof(*table));
+
+	ret = __ec_node_subset_complete(table, priv->len, comp, strvec);
+	ec_free(table);
+
+	return ret;
 }
 
 static void ec_node_subset_free_priv(struct ec_node *node)
-- 
2.43.0


From b1286c27e397ceeecf6264ae6645dbbbe62a22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:47 +0000
Subject: [PATCH 06/64] fix: endless recursion completing a repetition whose
 child matches nothing

---
 src/ecoli_node_many.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index c13b2f1..feb4970 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -100,8 +100,9 @@ __ec_node_many_complete(struct ec_node_many *priv, unsigned int max,
 		max--;
 
 	/* then, if the node matches the beginning of the strvec, try to
-	 * complete the rest */
-	for (i = 0; i < ec_strvec_len(strvec); i++) {
+	 * complete the rest (an empty match ends the iteration, as in
+	 * ec_node_many_parse()) */
+	for (i = 1; i < ec_strvec_len(strvec); i++) {
 		childvec = ec_strvec_ndup(strvec, 0, i);
 		if (childvec == NULL)
 			goto fail;
-- 
2.43.0


From ecbef29dc8e330ab1358d3a52fb9511dace4a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:10 +0000
Subject: [PATCH 07/64] fix: wrong missing quote reported when it is opened
 inside a word

---
 src/ecoli_strvec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ec63335..8c39a14 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -392,9 +392,11 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 				break;
 			case DOUBLE_QUOTE:
 				state = IN_DOUBLE_QUOTES;
+				quote = c;
 				break;
 			case SINGLE_QUOTE:
 				state = IN_SINGLE_QUOTES;
+				quote = c;
 				break;
 			case BACKSLASH:
 				state = ESCAPING;
@@ -416,6 +418,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case DOUBLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			case BACKSLASH:
 				state = ESCAPING_QUOTED;
@@ -429,6 +432,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SINGLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			default:
 				append(token, t, c);
-- 
2.43.0


From 54c9d5293eb1bf186ac1b82155b5c346e192b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:10 +0000
Subject: [PATCH 08/64] fix: shell lexer drops an empty quoted word at the end
 of the input

---
 src/ecoli_strvec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index 8c39a14..1d124d4 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -464,7 +464,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 		}
 		state = IN_WORD;
 	}
-	if (state == IN_WORD && t > 0) {
+	if (state == IN_WORD) {
 		token[t] = '\0';
 		if (ec_strvec_add(strvec, token) < 0)
 			goto fail;
-- 
2.43.0


From 921ea596f27cbaeb33eae4c4bf84c7aef9a1555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:42 +0000
Subject: [PATCH 09/64] fix: endless loop in re_lex when it has no pattern

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index e8a9cbd..a13beed 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -61,6 +61,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 	len = strlen(dup);
 	while (off < len) {
+		ret = -1;
 		for (i = 0; i < table_len; i++) {
 			ret = regexec(&table[i].r, &dup[off], 1, &pos, 0);
 			if (ret != 0)
-- 
2.43.0


From 93c963786a85390018cfbbf906524299e4dd0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:42 +0000
Subject: [PATCH 10/64] fix: re_lex fails instead of not matching when no
 pattern applies

---
 src/ecoli_node_re_lex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index a13beed..dc80c6a 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -100,8 +100,10 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 			break;
 		}
 
-		if (ret != 0)
+		if (ret != 0) {
+			errno = EBADMSG;
 			goto fail;
+		}
 
 		off += pos.rm_eo;
 	}
@@ -137,6 +139,8 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		str = ec_strvec_val(strvec, 0);
 		new_vec = tokenize(priv->table, priv->len, str);
 	}
+	if (new_vec == NULL && errno == EBADMSG) /* no pattern matches */
+		return EC_PARSE_NOMATCH;
 	if (new_vec == NULL)
 		goto fail;
 
-- 
2.43.0


From c7746980898704bc41984e7bc9757f82429cddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:42 +0000
Subject: [PATCH 11/64] fix: lexer nodes fail on an empty vector that their
 child matches

---
 src/ecoli_node_re_lex.c | 2 +-
 src/ecoli_node_sh_lex.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index dc80c6a..1c7662c 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -149,7 +149,7 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index 935ae32..fcc0189 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -54,7 +54,7 @@ ec_node_sh_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
-- 
2.43.0


From f1ed9500c126b15663b75940265576ef0b153fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:07 +0000
Subject: [PATCH 12/64] fix: crash of cond node when its child does not match
 and the condition is false

---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 9c07d96..782c44a 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -706,7 +706,7 @@ ec_node_cond_parse(const struct ec_node *node, struct ec_pnode *pstate,
 	int ret, valid;
 
 	ret = ec_parse_child(priv->child, pstate, strvec);
-	if (ret <= 0)
+	if (ret <= 0 || ret == EC_PARSE_NOMATCH)
 		return ret;
 
 	valid = validate_condition(priv->parsed_cond, pstate);
-- 
2.43.0


From 718c0cd8d7080af37c388bf6fac4b6712e621cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:07 +0000
Subject: [PATCH 13/64] fix: cond node ignores its condition when its child
 matches an empty vector

---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 782c44a..23613df 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -706,7 +706,7 @@ ec_node_cond_parse(const struct ec_node *node, struct ec_pnode *pstate,
 	int ret, valid;
 
 	ret = ec_parse_child(priv->child, pstate, strvec);
-	if (ret <= 0 || ret == EC_PARSE_NOMATCH)
+	if (ret < 0 || ret == EC_PARSE_NOMATCH)
 		return ret;
 
 	valid = validate_condition(priv->parsed_cond, pstate);
-- 
2.43.0


From 1b1e784079e0d0280db0286b99a89eb9811e1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:07 +0000
Subject: [PATCH 14/64] fix: equal node sets compare different in cond
 expressions

---
 src/ecoli_node_cond.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 23613df..3bf2ae4 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -522,10 +522,10 @@ eval_cmp(const struct ec_pnode *pstate, struct cond_result **in,
 		eq = true;
 		for (iter = ec_htable_iter(in[1]->htable);
 		     iter != NULL; iter = ec_htable_iter_next(iter)) {
-			if (ec_htable_get(
+			if (!ec_htable_has_key(
 					in[2]->htable,
 					ec_htable_iter_get_key(iter),
-					sizeof(struct ec_pnode *)) == NULL) {
+					sizeof(struct ec_pnode *))) {
 				eq = false;
 				break;
 			}
-- 
2.43.0


From 71956fb6130a84c256b0fd437aeee66b26bba206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:07 +0000
Subject: [PATCH 15/64] fix: cond node in a grammar loop is never freed

---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 3bf2ae4..aad17b1 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -827,7 +827,7 @@ ec_node_cond_get_child(const struct ec_node *node, size_t i,
 		return -1;
 
 	*child = priv->child;
-	*refs = 1;
+	*refs = 2;
 	return 0;
 }
 
-- 
2.43.0


From 9d6c7fe493f02721c8d3187f8250692975361a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:47 +0000
Subject: [PATCH 16/64] fix: documented '+' operator is rejected by cmd nodes

---
 src/ecoli_node_cmd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c60522f..11832b2 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -129,6 +129,13 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 			return -1;
 		ec_node_free(in);
 		*result = out;
+	} else if (!strcmp(ec_strvec_val(vec, 0), "+")) {
+		out = ec_node_many(EC_NO_ID,
+				ec_node_clone(in), 1, 0);
+		if (out == NULL)
+			return -1;
+		ec_node_free(in);
+		*result = out;
 	} else {
 		errno = EINVAL;
 		return -1;
@@ -331,7 +338,7 @@ ec_node_cmd_build_parser(struct ec_node *expr)
 	ret = ec_node_re_lex_add(lex, "[a-zA-Z0-9_-]+", 1, NULL);
 	if (ret < 0)
 		goto fail;
-	ret = ec_node_re_lex_add(lex, "[*|,()]", 1, NULL);
+	ret = ec_node_re_lex_add(lex, "[+*|,()]", 1, NULL);
 	if (ret < 0)
 		goto fail;
 	ret = ec_node_re_lex_add(lex, "\\[", 1, NULL);
-- 
2.43.0


From fb4b9de182ea7505de6418edf59b6422ca63a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:47 +0000
Subject: [PATCH 17/64] fix: cmd node modifies the nodes provided by the user

---
 src/ecoli_node_cmd.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 11832b2..cfd8636 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -144,6 +144,16 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 	return 0;
 }
 
+/* Return true if the node has this type and was created by the evaluation of
+ * the command string. The nodes provided by the user, that always have an id,
+ * must not be modified. */
+static bool
+is_internal_node(const struct ec_node *node, const char *type_name)
+{
+	return !strcmp(ec_node_get_type_name(node), type_name) &&
+		!strcmp(ec_node_id(node), EC_NO_ID);
+}
+
 static int
 ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	const struct ec_pnode *operator, void *operand2)
@@ -164,7 +174,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	}
 
 	if (ec_strvec_len(vec) == 0) {
-		if (!strcmp(ec_node_get_type_name(in1), "seq")) {
+		if (is_internal_node(in1, "seq")) {
 			if (ec_node_seq_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -179,12 +189,12 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (!strcmp(ec_node_get_type_name(in2), "or")) {
+		if (is_internal_node(in2, "or")) {
 			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
 				return -1;
 			ec_node_free(in1);
 			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "or")) {
+		} else if (is_internal_node(in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -199,12 +209,12 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), ",")) {
-		if (!strcmp(ec_node_get_type_name(in2), "subset")) {
+		if (is_internal_node(in2, "subset")) {
 			if (ec_node_subset_add(in2, ec_node_clone(in1)) < 0)
 				return -1;
 			ec_node_free(in1);
 			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "subset")) {
+		} else if (is_internal_node(in1, "subset")) {
 			if (ec_node_subset_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
-- 
2.43.0


From 40e0643ef09fc0b16cc76ba8a88ac7249cd2cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:59 +0000
Subject: [PATCH 18/64] fix: expr aborts on repeated suffix operators and
 groups binary operators from the right

---
 src/ecoli_node_expr.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 1348a29..bf6a7cc 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -514,6 +514,38 @@ static int merge_results(void *userctx,
 	return -1;
 }
 
+static int eval_expression(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse);
+
+/* Evaluate a list of suffix operators, or a list of (operator, operand): each
+ * one applies to the result of what is on its left. On error, the result is
+ * not freed. */
+static int eval_list(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
+{
+	struct result child_result;
+	struct ec_pnode *child;
+
+	EC_PNODE_FOREACH_CHILD(child, parse) {
+		if (eval_expression(&child_result, userctx, ops,
+					expr_node, child) < 0)
+			return -1;
+		if (merge_results(userctx, ops, result, &child_result) < 0) {
+			if (child_result.has_val)
+				ops->eval_free(child_result.val, userctx);
+			return -1;
+		}
+	}
+
+	return 0;
+}
+
 static int eval_expression(struct result *result,
 	void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
@@ -548,6 +580,14 @@ static int eval_expression(struct result *result,
 		} else if (type == PAREN_CLOSE) {
 			close = child;
 			continue;
+		} else if (type == NONE && result->has_val &&
+				!strcmp(ec_node_get_type_name(
+						ec_pnode_get_node(child)),
+					"many")) {
+			if (eval_list(result, userctx, ops, expr_node,
+					child) < 0)
+				goto fail;
+			continue;
 		}
 
 		if (eval_expression(&child_result, userctx, ops,
-- 
2.43.0


From 13d9474b10225b42e4fbc80f1eb191c384493637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:59 +0000
Subject: [PATCH 19/64] fix: cmd node reorders the alternatives of 'a|(b|c)'

---
 src/ecoli_node_cmd.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index cfd8636..afead80 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -189,12 +189,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (is_internal_node(in2, "or")) {
-			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (is_internal_node(in1, "or")) {
+		if (is_internal_node(in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -209,12 +204,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), ",")) {
-		if (is_internal_node(in2, "subset")) {
-			if (ec_node_subset_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (is_internal_node(in1, "subset")) {
+		if (is_internal_node(in1, "subset")) {
 			if (ec_node_subset_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
-- 
2.43.0


From cfb61d4bb0bf2a9c88c50d1fe2e06ec4a22af47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:59 +0000
Subject: [PATCH 20/64] fix: cmd node leaks the nodes it created when its
 expression is invalid

---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index afead80..0166262 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -267,7 +267,7 @@ static void
 ec_node_cmd_eval_free(void *result, void *userctx)
 {
 	(void)userctx;
-	ec_free(result);
+	ec_node_free(result);
 }
 
 static const struct ec_node_expr_eval_ops expr_ops = {
-- 
2.43.0


From 31795bf8f216d9039668b497508d01d57f31297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:21 +0000
Subject: [PATCH 21/64] fix: crash importing a yaml node that has no type

---
 src/ecoli_yaml.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 66f0d11..0852e4a 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -443,6 +443,11 @@ parse_ec_node(struct enode_table *table,
 		}
 	}
 
+	if (type == NULL) {
+		fprintf(stderr, "Missing type\n");
+		goto fail;
+	}
+
 	/* create the ecoli node */
 	if (id == NULL)
 		id = EC_NO_ID;
-- 
2.43.0


From 5158f7b2d72d54f0b66f71aaf076cd8099267dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:21 +0000
Subject: [PATCH 22/64] fix: crash importing yaml keys or attributes that are
 not scalars

---
 src/ecoli_yaml.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 0852e4a..2db4382 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -331,6 +331,10 @@ parse_ec_config_dict(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 
 		if (ec_config_key_is_reserved(key_str))
@@ -388,6 +392,10 @@ parse_ec_node(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 		value_str = (const char *)value->data.scalar.value;
 
@@ -496,6 +504,11 @@ parse_ec_node(struct enode_table *table,
 		     pair < attrs->data.mapping.pairs.top; pair++) {
 			key = document->nodes.start + pair->key - 1;
 			value = document->nodes.start + pair->value - 1;
+			if (key->type != YAML_SCALAR_NODE ||
+					value->type != YAML_SCALAR_NODE) {
+				fprintf(stderr, "Attribute must be a scalar\n");
+				goto fail;
+			}
 			key_str = (const char *)key->data.scalar.value;
 			value_str = (const char *)value->data.scalar.value;
 			value_dup = ec_strdup(value_str);
-- 
2.43.0


From 9bfbcb0d159b004e7fe747887f9fd4328ef71bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:21 +0000
Subject: [PATCH 23/64] fix: uninitialized yaml parser is deleted when the file
 cannot be opened

---
 src/ecoli_yaml.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 2db4382..7d76e34 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -554,6 +554,7 @@ ec_yaml_import(const char *filename)
 	struct enode_table table;
 
 	memset(&table, 0, sizeof(table));
+	memset(&parser, 0, sizeof(parser));
 
 	file = fopen(filename, "rb");
 	if (file == NULL) {
-- 
2.43.0


From cd51e8d66c4d98e17989e3e6088c4912a89c7713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:33 +0000
Subject: [PATCH 24/64] fix: the whole completion fails when a file path is in
 a missing directory

---
 src/ecoli_node_file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index f13aa8f..7565a5b 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -148,14 +148,15 @@ ec_node_file_complete(const struct ec_node *node,
 	else
 		effective_dir = dname;
 
+	/* nothing to list if it is not an accessible directory */
 	if (priv->lstat(effective_dir, &st) < 0)
-		goto fail;
+		goto out;
 	if (!S_ISDIR(st.st_mode))
 		goto out;
 
 	dir = priv->opendir(effective_dir);
 	if (dir == NULL)
-		goto fail;
+		goto out;
 
 	bname_len = strlen(bname);
 	while (1) {
-- 
2.43.0


From 48b3baeb8c163c25c0f9cabb2f1097d51639258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:52 +0000
Subject: [PATCH 25/64] fix: config dump shows signed integers as unsigned and
 vice versa

---
 src/ecoli_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 57a7a61..ec67411 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -855,10 +855,10 @@ __ec_config_dump(FILE *out, const char *key, const struct ec_config *value,
 			ec_asprintf(&val_str, "false");
 		break;
 	case EC_CONFIG_TYPE_INT64:
-		ec_asprintf(&val_str, "%"PRIu64, value->u64);
+		ec_asprintf(&val_str, "%"PRIi64, value->i64);
 		break;
 	case EC_CONFIG_TYPE_UINT64:
-		ec_asprintf(&val_str, "%"PRIi64, value->i64);
+		ec_asprintf(&val_str, "%"PRIu64, value->u64);
 		break;
 	case EC_CONFIG_TYPE_STRING:
 		ec_asprintf(&val_str, "%s", value->string);
-- 
2.43.0


From f67a65d94dc8cc8c9bf8216cedb6dec2caf2a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:40 +0000
Subject: [PATCH 26/64] fix: merged completions reference freed nodes

---
 src/ecoli_complete.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 5ba4fb0..76dd93b 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -588,12 +588,26 @@ void ec_comp_dump(FILE *out, const struct ec_comp *comp)
 int ec_comp_merge(struct ec_comp *to,
 		struct ec_comp *from)
 {
+	void (*attrs_free)(struct ec_dict *) = ec_dict_free;
 	struct ec_comp_group *grp;
+	char key[64];
+	int ret;
+
+	/* keep the attributes: they own the nodes built by dynamic nodes,
+	 * that are referenced by the groups */
+	snprintf(key, sizeof(key), "_merge_%p", from->attrs);
+	ret = ec_dict_set(to->attrs, key, from->attrs, (void *)attrs_free);
+	from->attrs = NULL;
+	if (ret < 0) {
+		ec_comp_free(from);
+		return -1;
+	}
 
 	while (!TAILQ_EMPTY(&from->groups)) {
 		grp = TAILQ_FIRST(&from->groups);
 		TAILQ_REMOVE(&from->groups, grp, next);
 		TAILQ_INSERT_TAIL(&to->groups, grp, next);
+		grp->comp = to;
 	}
 	to->count += from->count;
 	to->count_full += from->count_full;
-- 
2.43.0


From 4f097442b0b8ee881500c449ace360e30e7991c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:57 +0000
Subject: [PATCH 27/64] fix: endless recursion searching a node by id in a
 grammar with a loop

---
 src/ecoli_node.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 5fbeab4..6e23fa8 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -12,6 +12,7 @@
 #include <ecoli_string.h>
 #include <ecoli_strvec.h>
 #include <ecoli_dict.h>
+#include <ecoli_htable.h>
 #include <ecoli_log.h>
 #include <ecoli_config.h>
 #include <ecoli_test.h>
@@ -330,7 +331,8 @@ const struct ec_config *ec_node_get_config(struct ec_node *node)
 	return node->config;
 }
 
-struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+static struct ec_node *
+__ec_node_find(struct ec_node *node, const char *id, struct ec_htable *visited)
 {
 	struct ec_node *child, *retnode;
 	const char *node_id = ec_node_id(node);
@@ -341,11 +343,17 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	if (id != NULL && node_id != NULL && !strcmp(node_id, id))
 		return node;
 
+	/* the graph can contain loops */
+	if (ec_htable_has_key(visited, &node, sizeof(node)))
+		return NULL;
+	if (ec_htable_set(visited, &node, sizeof(node), NULL, NULL) < 0)
+		return NULL;
+
 	n = ec_node_get_children_count(node);
 	for (i = 0; i < n; i++) {
 		ret = ec_node_get_child(node, i, &child, &refs);
 		assert(ret == 0);
-		retnode = ec_node_find(child, id);
+		retnode = __ec_node_find(child, id, visited);
 		if (retnode != NULL)
 			return retnode;
 	}
@@ -353,6 +361,20 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	return NULL;
 }
 
+struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+{
+	struct ec_htable *visited;
+	struct ec_node *retnode;
+
+	visited = ec_htable();
+	if (visited == NULL)
+		return NULL;
+	retnode = __ec_node_find(node, id, visited);
+	ec_htable_free(visited);
+
+	return retnode;
+}
+
 const struct ec_node_type *ec_node_type(const struct ec_node *node)
 {
 	return node->type;
-- 
2.43.0


From e1ec9abc2e72078129671c6f45ed0e467aa0715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:07 +0000
Subject: [PATCH 28/64] fix: completion columns are not sorted when printed

---
 src/ecoli_editline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index d944b12..0a111fd 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -85,7 +85,7 @@ ec_editline_print_cols(struct ec_editline *editline,
 			else
 				space = "    ";
 			fprintf(f, "%s%-*s", space,
-				(int)max_strlen, matches[i+j]);
+				(int)max_strlen, matches_copy[i+j]);
 		}
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From 56462c414cb8855b2b1ef65febe8d597ff90f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:23 +0000
Subject: [PATCH 29/64] fix: freed history still used after it is disabled

---
 src/ecoli_editline.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 0a111fd..d136e59 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -300,8 +300,11 @@ int ec_editline_set_history(struct ec_editline *editline,
 {
 	EditLine *el = editline->el;
 
-	if (editline->history != NULL)
+	if (editline->history != NULL) {
+		el_set(el, EL_HIST, history, NULL);
 		history_end(editline->history);
+		editline->history = NULL;
+	}
 	if (editline->hist_file != NULL) {
 		ec_free(editline->hist_file);
 		editline->hist_file = NULL;
-- 
2.43.0


From 7ff804f658506c7502c3755713f9a82e82948baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:23 +0000
Subject: [PATCH 30/64] fix: last character of a line lost when it does not end
 with a newline

---
 src/ecoli_editline.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index d136e59..8e5ff18 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -750,7 +750,9 @@ ec_editline_gets(struct ec_editline *editline)
 	if (line_copy == NULL)
 		goto fail;
 
-	line_copy[strlen(line_copy) - 1] = '\0'; //XXX needed because of sh_lex bug?
+	count = strlen(line_copy);
+	if (count > 0 && line_copy[count - 1] == '\n')
+		line_copy[count - 1] = '\0'; //XXX needed because of sh_lex bug?
 
 	if (editline->history != NULL && !ec_str_is_space(line_copy)) {
 		history(editline->history, &editline->histev,
-- 
2.43.0


From 35d6b4121427db5573716ebe42d07c39dfe0af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:26 +0000
Subject: [PATCH 31/64] fix: endless recursion freeing a grammar that has
 several loops

When a node was found not freeable through a loop, the nodes already marked
as not freeable were marked freeable again by the callers, forever.
---
 src/ecoli_node.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 6e23fa8..1d40e58 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -185,7 +185,9 @@ static void mark_freeable(struct ec_node *node, enum ec_node_free_state mark)
 	size_t i, n;
 	int ret;
 
-	if (mark == node->free.state)
+	/* once a node is not freeable, it remains so */
+	if (mark == node->free.state ||
+			node->free.state == EC_NODE_FREE_STATE_NOT_FREEABLE)
 		return;
 
 	if (node->refcnt > node->free.refcnt)
-- 
2.43.0


From c8e1a77bbce3c27400e4e1640beb9357e2380b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:34 +0000
Subject: [PATCH 32/64] fix: abort when a child of a node in a grammar loop is
 replaced

The old children were released while the node was still reporting them.
---
 src/ecoli_node_bypass.c |  5 +++--
 src/ecoli_node_cmd.c    | 17 ++++++++++-------
 src/ecoli_node_cond.c   |  4 +++-
 src/ecoli_node_expr.c   |  4 +++-
 src/ecoli_node_many.c   |  5 +++--
 src/ecoli_node_once.c   |  5 +++--
 src/ecoli_node_option.c |  5 +++--
 src/ecoli_node_or.c     | 12 +++++++-----
 src/ecoli_node_re_lex.c |  5 +++--
 src/ecoli_node_seq.c    | 12 +++++++-----
 10 files changed, 45 insertions(+), 29 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 483970b..9cd3f65 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -91,6 +91,7 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 {
 	struct ec_node_bypass *priv = ec_node_priv(node);
 	const struct ec_config *child;
+	struct ec_node *old_child;
 
 	child = ec_config_dict_get(config, "child");
 	if (child == NULL)
@@ -100,9 +101,9 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 0166262..c631896 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -463,10 +463,10 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 	const struct ec_config *expr = NULL;
-	struct ec_node *cmd = NULL;
-	struct ec_node **table = NULL;
+	struct ec_node *cmd = NULL, *old_cmd;
+	struct ec_node **table = NULL, **old_table;
 	char *cmd_str = NULL;
-	size_t len = 0, i;
+	size_t len = 0, old_len, i;
 
 	/* retrieve config locally */
 	expr = ec_config_dict_get(config, "expr");
@@ -490,15 +490,18 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 		goto fail;
 
 	/* ok, store the config */
-	ec_node_free(priv->cmd);
+	old_cmd = priv->cmd;
 	priv->cmd = cmd;
 	ec_free(priv->cmd_str);
 	priv->cmd_str = cmd_str;
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	old_table = priv->table;
+	old_len = priv->len;
 	priv->table = table;
 	priv->len = len;
+	ec_node_free(old_cmd);
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
 
 	return 0;
 
diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index aad17b1..abeabdf 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -770,6 +770,7 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	const struct ec_config *cond = NULL;
 	struct ec_pnode *parsed_cond = NULL;
 	const struct ec_config *child;
+	struct ec_node *old_child;
 	char *cond_str = NULL;
 
 	cond = ec_config_dict_get(config, "expr");
@@ -796,8 +797,9 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	priv->parsed_cond = parsed_cond;
 	ec_free(priv->cond_str);
 	priv->cond_str = cond_str;
-	ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index bf6a7cc..df67b50 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -101,8 +101,10 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 		*post = NULL;
 	unsigned int i;
 
-	ec_node_free(priv->child);
+	ref = priv->child;
 	priv->child = NULL;
+	ec_node_free(ref);
+	ref = NULL;
 
 	if (priv->val_node == NULL) {
 		errno = EINVAL;
diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index feb4970..8e55b4f 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -211,6 +211,7 @@ static int ec_node_many_set_config(struct ec_node *node,
 {
 	struct ec_node_many *priv = ec_node_priv(node);
 	const struct ec_config *child, *min, *max;
+	struct ec_node *old_child;
 
 	child = ec_config_dict_get(config, "child");
 	if (child == NULL)
@@ -232,8 +233,7 @@ static int ec_node_many_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
 	if (min == NULL)
 		priv->min = 0;
@@ -243,6 +243,7 @@ static int ec_node_many_set_config(struct ec_node *node,
 		priv->max = 0;
 	else
 		priv->max = max->u64;
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 6a4b045..5ef71f9 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -133,6 +133,7 @@ static int ec_node_once_set_config(struct ec_node *node,
 {
 	struct ec_node_once *priv = ec_node_priv(node);
 	const struct ec_config *child;
+	struct ec_node *old_child;
 
 	child = ec_config_dict_get(config, "child");
 	if (child == NULL)
@@ -142,9 +143,9 @@ static int ec_node_once_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index bcb280a..ae0c684 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -99,6 +99,7 @@ static int ec_node_option_set_config(struct ec_node *node,
 {
 	struct ec_node_option *priv = ec_node_priv(node);
 	const struct ec_config *child;
+	struct ec_node *old_child;
 
 	child = ec_config_dict_get(config, "child");
 	if (child == NULL)
@@ -108,9 +109,9 @@ static int ec_node_option_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index c918160..afd7c28 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -105,19 +105,21 @@ static int ec_node_or_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_or *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **old_table;
+	size_t i, len = 0, old_len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	old_table = priv->table;
+	old_len = priv->len;
 	priv->table = table;
 	priv->len = len;
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
 
 	return 0;
 }
diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 1c7662c..2883269 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -263,6 +263,7 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 	struct regexp_pattern *table = NULL;
 	const struct ec_config *patterns, *child, *elt, *pattern, *keep, *attr;
 	char *pattern_str = NULL, *attr_name = NULL;
+	struct ec_node *old_child;
 	ssize_t i, n = 0;
 	int ret;
 
@@ -344,9 +345,9 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 		}
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 	for (i = 0; i < (ssize_t)priv->len; i++) {
 		ec_free(priv->table[i].pattern);
 		ec_free(priv->table[i].attr_name);
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 4afdc20..37f4a38 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -191,19 +191,21 @@ static int ec_node_seq_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_seq *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **old_table;
+	size_t i, len = 0, old_len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	old_table = priv->table;
+	old_len = priv->len;
 	priv->table = table;
 	priv->len = len;
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
 
 	return 0;
 }
-- 
2.43.0


From 5e0e624c0d96dc0f154ab39750c23aa92e2b038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:49 +0000
Subject: [PATCH 33/64] fix: grammar loop that goes through the children of a
 cmd node is never freed

---
 src/ecoli_node_cmd.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c631896..04a7bd1 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -523,7 +523,7 @@ ec_node_cmd_get_children_count(const struct ec_node *node)
 
 	if (priv->cmd == NULL)
 		return 0;
-	return 1;
+	return 1 + priv->len;
 }
 
 static int
@@ -532,11 +532,19 @@ ec_node_cmd_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 
-	if (i > 0)
+	if (i > priv->len)
 		return -1;
 
-	*child = priv->cmd;
-	*refs = 1;
+	if (i == 0) {
+		*child = priv->cmd;
+		*refs = 1;
+		return 0;
+	}
+
+	*child = priv->table[i - 1];
+	/* each child node is referenced twice: once in the config and
+	 * once in the priv->table[] */
+	*refs = 2;
 	return 0;
 }
 
-- 
2.43.0


From 4dcdc22261f87db65d388af324468c2b37db3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:24 +0000
Subject: [PATCH 34/64] fix: grammar loop that goes through the nodes of an
 expr node is never freed

---
 src/ecoli_node_expr.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index df67b50..d1bb967 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -230,9 +230,9 @@ ec_node_expr_get_children_count(const struct ec_node *node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
-	if (priv->child)
-		return 1;
-	return 0;
+	return (priv->child != NULL) + (priv->val_node != NULL) +
+		priv->bin_ops_len + priv->pre_ops_len + priv->post_ops_len +
+		2 * (size_t)priv->paren_len;
 }
 
 static int
@@ -241,11 +241,25 @@ ec_node_expr_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
-	if (i >= 1)
+	*refs = 1;
+
+	if (priv->child != NULL && i-- == 0)
+		*child = priv->child;
+	else if (priv->val_node != NULL && i-- == 0)
+		*child = priv->val_node;
+	else if (i < priv->bin_ops_len)
+		*child = priv->bin_ops[i];
+	else if ((i -= priv->bin_ops_len) < priv->pre_ops_len)
+		*child = priv->pre_ops[i];
+	else if ((i -= priv->pre_ops_len) < priv->post_ops_len)
+		*child = priv->post_ops[i];
+	else if ((i -= priv->post_ops_len) < priv->paren_len)
+		*child = priv->open_ops[i];
+	else if ((i -= priv->paren_len) < priv->paren_len)
+		*child = priv->close_ops[i];
+	else
 		return -1;
 
-	*child = priv->child;
-	*refs = 1;
 	return 0;
 }
 
@@ -264,6 +278,7 @@ EC_NODE_TYPE_REGISTER(ec_node_expr_type);
 int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
+	struct ec_node *old_val_node;
 
 	if (ec_node_check_type(node, &ec_node_expr_type) < 0)
 		goto fail;
@@ -273,8 +288,9 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 		goto fail;
 	}
 
-	ec_node_free(priv->val_node);
+	old_val_node = priv->val_node;
 	priv->val_node = val_node;
+	ec_node_free(old_val_node);
 	ec_node_expr_build(priv);
 
 	return 0;
-- 
2.43.0


From 73319d67fd5bdeeea808532453b0b5e196e9cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:47 +0000
Subject: [PATCH 35/64] fix: reject out of range offset and length in strvec
 and vec ndup

The sum of the offset and the length was compared with the length of the
vector: it can wrap, in which case memory outside of the vector is
accessed. Also set errno on error, as documented.
---
 src/ecoli_strvec.c | 4 +++-
 src/ecoli_vec.c    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index 1d124d4..09ab1b5 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -156,8 +156,10 @@ struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_strvec_len(strvec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_strvec();
 	if (copy == NULL)
diff --git a/src/ecoli_vec.c b/src/ecoli_vec.c
index 3fd5805..661f6b6 100644
--- a/src/ecoli_vec.c
+++ b/src/ecoli_vec.c
@@ -122,8 +122,10 @@ struct ec_vec *ec_vec_ndup(const struct ec_vec *vec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_vec_len(vec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_vec(vec->elt_size, len, vec->copy, vec->free);
 	if (copy == NULL)
-- 
2.43.0


From 35a0a83e1b80f1013224244ca937d2dc5ed27571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:47 +0000
Subject: [PATCH 36/64] fix: free the value when a hash table key is invalid

The value passed to ec_htable_set() is documented to be freed on error,
this was not the case when the table or the key is NULL.
---
 src/ecoli_htable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index b2ce66f..8240c5a 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -188,7 +188,7 @@ int ec_htable_set(struct ec_htable *htable, const void *key, size_t key_len,
 
 	if (htable == NULL || key == NULL || key_len == 0) {
 		errno = EINVAL;
-		return -1;
+		goto fail;
 	}
 
 	ref = ec_calloc(1, sizeof(*ref));
-- 
2.43.0


From 37ee5984f789e12571c8410a25a65cdd48654e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:47 +0000
Subject: [PATCH 37/64] fix: set errno to 0 when a NULL value is found in a
 hash table

This is documented, and lets the caller distinguish it from an error.
---
 src/ecoli_htable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index 8240c5a..23b6689 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -97,6 +97,9 @@ void *ec_htable_get(const struct ec_htable *htable, const void *key,
 	if (ref == NULL)
 		return NULL;
 
+	if (ref->elt->val == NULL)
+		errno = 0;
+
 	return ref->elt->val;
 }
 
-- 
2.43.0


From bcea942aba2d285a81750f5045a152bb579ad20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:47 +0000
Subject: [PATCH 38/64] fix: do not access a NULL hash table in lookup

The table was dereferenced before being compared to NULL.
---
 src/ecoli_htable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index 23b6689..5d4f893 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -42,7 +42,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		size_t key_len)
 {
 	struct ec_htable_elt_ref *ref;
-	uint32_t h, mask = htable->table_size - 1;
+	uint32_t h, mask;
 
 	if (htable == NULL || key == NULL) {
 		errno = EINVAL;
@@ -53,6 +53,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		return NULL;
 	}
 
+	mask = htable->table_size - 1;
 	h = ec_murmurhash3(key, key_len, ec_htable_seed);
 	TAILQ_FOREACH(ref, &htable->table[h & mask], hnext) {
 		if (ref->elt->key_len != key_len)
-- 
2.43.0


From da22428401fa13ca28bdaffcd638484cdd9ded8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:50 +0000
Subject: [PATCH 39/64] fix: operand of a failed expr operator is lost

The result of an eval callback is undefined when it fails, and the operands
still have to be freed by the caller: do not let the callback overwrite the
reference to its operand.
---
 src/ecoli_node_expr.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index d1bb967..b7a946f 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -488,6 +488,8 @@ static int merge_results(void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
 	struct result *x, const struct result *y)
 {
+	void *val = NULL;
+
 	if (y->has_val == 0 && y->op == NULL)
 		return 0;
 	if (x->has_val == 0 && x->op == NULL) {
@@ -497,19 +499,21 @@ static int merge_results(void *userctx,
 
 	if (x->has_val && y->has_val && y->op != NULL) {
 		if (y->op_type == BIN_OP) {
-			if (ops->eval_bin_op(&x->val, userctx, x->val,
+			if (ops->eval_bin_op(&val, userctx, x->val,
 					y->op, y->val) < 0)
 				return -1;
 
+			x->val = val;
 			return 0;
 		}
 	}
 
 	if (x->has_val == 0 && x->op != NULL && y->has_val && y->op == NULL) {
 		if (x->op_type == PRE_OP) {
-			if (ops->eval_pre_op(&x->val, userctx, y->val,
+			if (ops->eval_pre_op(&val, userctx, y->val,
 						x->op) < 0)
 				return -1;
+			x->val = val;
 			x->has_val = true;
 			x->op_type = NONE;
 			x->op = NULL;
@@ -522,9 +526,10 @@ static int merge_results(void *userctx,
 	}
 
 	if (x->has_val && x->op == NULL && y->has_val == 0 && y->op != NULL) {
-		if (ops->eval_post_op(&x->val, userctx, x->val, y->op) < 0)
+		if (ops->eval_post_op(&val, userctx, x->val, y->op) < 0)
 			return -1;
 
+		x->val = val;
 		return 0;
 	}
 
@@ -575,6 +580,7 @@ static int eval_expression(struct result *result,
 	struct result child_result;
 	struct ec_pnode *child;
 	enum expr_node_type type;
+	void *val = NULL;
 
 	memset(result, 0, sizeof(*result));
 	memset(&child_result, 0, sizeof(child_result));
@@ -619,9 +625,10 @@ static int eval_expression(struct result *result,
 	}
 
 	if (open != NULL && close != NULL) {
-		if (ops->eval_parenthesis(&result->val, userctx, open, close,
+		if (ops->eval_parenthesis(&val, userctx, open, close,
 			result->val) < 0)
 			goto fail;
+		result->val = val;
 	}
 
 	return 0;
-- 
2.43.0


From 7f50cafc3eb3f36cd0cc2f1d2efac8d93d982607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:04 +0000
Subject: [PATCH 40/64] fix: abort evaluating an expression whose variable
 contains an expression

A variable can be any node, for instance a function call whose arguments are
expressions. It is evaluated by the user callback: do not also evaluate what
is below it, which has no place in the current expression.
---
 src/ecoli_node_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index b7a946f..21f032e 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -590,9 +590,11 @@ static int eval_expression(struct result *result,
 		if (ops->eval_var(&result->val, userctx, parse) < 0)
 			goto fail;
 		result->has_val = 1;
+		return 0; /* what is below belongs to the variable */
 	} else if (type == PRE_OP || type == POST_OP || type == BIN_OP) {
 		result->op = parse;
 		result->op_type = type;
+		return 0;
 	}
 
 	EC_PNODE_FOREACH_CHILD(child, parse) {
-- 
2.43.0


From a4d363d423a4566313c012d384fddf9f68e173f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:06 +0000
Subject: [PATCH 41/64] fix: completion items counted although they could not
 be added

---
 src/ecoli_complete.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 76dd93b..53fcc78 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -378,17 +378,8 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		return -1;
 	}
 
-	switch (item->type) {
-	case EC_COMP_UNKNOWN:
-		comp->count_unknown++;
-		break;
-	case EC_COMP_FULL:
-		comp->count_full++;
-		break;
-	case EC_COMP_PARTIAL:
-		comp->count_partial++;
-		break;
-	default:
+	if (item->type != EC_COMP_UNKNOWN && item->type != EC_COMP_FULL &&
+			item->type != EC_COMP_PARTIAL) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -403,6 +394,19 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		comp->cur_group = grp;
 	}
 
+	switch (item->type) {
+	case EC_COMP_UNKNOWN:
+		comp->count_unknown++;
+		break;
+	case EC_COMP_FULL:
+		comp->count_full++;
+		break;
+	case EC_COMP_PARTIAL:
+		comp->count_partial++;
+		break;
+	default:
+		break;
+	}
 	comp->count++;
 	TAILQ_INSERT_TAIL(&comp->cur_group->items, item, next);
 	item->grp = comp->cur_group;
-- 
2.43.0


From 57a3e9dbfbccb54dcd093a164c6f8b24958117c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:52 +0000
Subject: [PATCH 42/64] fix: next sibling of an unlinked parse node may be a
 freed node

---
 src/ecoli_parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_parse.c b/src/ecoli_parse.c
index e4153c0..0ab42e3 100644
--- a/src/ecoli_parse.c
+++ b/src/ecoli_parse.c
@@ -327,6 +327,10 @@ ec_pnode_get_last_child(const struct ec_pnode *pnode)
 
 struct ec_pnode *ec_pnode_next(const struct ec_pnode *pnode)
 {
+	/* once unlinked, a node does not have siblings anymore */
+	if (pnode->parent == NULL)
+		return NULL;
+
 	return TAILQ_NEXT(pnode, next);
 }
 
-- 
2.43.0


From b4dc1fc4f55952136a7a9290ff202dd25cbce7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:10 +0000
Subject: [PATCH 43/64] fix: crash when using a node that has no configuration

Parsing or completing with a node that was created with ec_node() but
never configured (or whose configuration was rejected) dereferenced a
NULL child. Report EINVAL, as the str node does.
---
 src/ecoli_complete.c     | 5 +++++
 src/ecoli_node_dynamic.c | 8 ++++++++
 src/ecoli_node_re.c      | 5 +++++
 src/ecoli_parse.c        | 5 +++++
 4 files changed, 23 insertions(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 53fcc78..4322bdc 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -108,6 +108,11 @@ ec_complete_child(const struct ec_node *node,
 	ec_complete_t complete_cb;
 	int ret;
 
+	if (node == NULL) { /* the parent node is not configured */
+		errno = EINVAL;
+		return -1;
+	}
+
 	/* get the complete method, falling back to ec_complete_unknown() */
 	complete_cb = ec_node_type(node)->complete;
 	if (complete_cb == NULL)
diff --git a/src/ecoli_node_dynamic.c b/src/ecoli_node_dynamic.c
index 2eb3495..d8579ca 100644
--- a/src/ecoli_node_dynamic.c
+++ b/src/ecoli_node_dynamic.c
@@ -39,6 +39,10 @@ ec_node_dynamic_parse(const struct ec_node *node,
 	char key[64];
 	int ret = -1;
 
+	if (priv->build == NULL) {
+		errno = EINVAL;
+		goto fail;
+	}
 	child = priv->build(parse, priv->opaque);
 	if (child == NULL)
 		goto fail;
@@ -73,6 +77,10 @@ ec_node_dynamic_complete(const struct ec_node *node,
 	int ret = -1;
 
 	parse = ec_comp_get_cur_pstate(comp);
+	if (priv->build == NULL) {
+		errno = EINVAL;
+		goto fail;
+	}
 	child = priv->build(parse, priv->opaque);
 	if (child == NULL)
 		goto fail;
diff --git a/src/ecoli_node_re.c b/src/ecoli_node_re.c
index 8633501..fcc2c0e 100644
--- a/src/ecoli_node_re.c
+++ b/src/ecoli_node_re.c
@@ -36,6 +36,11 @@ ec_node_re_parse(const struct ec_node *node,
 
 	(void)pstate;
 
+	if (priv->re_str == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	if (ec_strvec_len(strvec) == 0)
 		return EC_PARSE_NOMATCH;
 
diff --git a/src/ecoli_parse.c b/src/ecoli_parse.c
index 0ab42e3..efa9cfb 100644
--- a/src/ecoli_parse.c
+++ b/src/ecoli_parse.c
@@ -43,6 +43,11 @@ static int __ec_parse_child(const struct ec_node *node,
 
 	// XXX limit max number of recursions to avoid segfault
 
+	if (node == NULL) { /* the parent node is not configured */
+		errno = EINVAL;
+		return -1;
+	}
+
 	if (ec_node_type(node)->parse == NULL) {
 		errno = ENOTSUP;
 		return -1;
-- 
2.43.0


From 972c677ecf64ec438c492d53edfd31a92b888e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:13 +0000
Subject: [PATCH 44/64] fix: ec_config_count() fails on a dictionary

It is documented to return the number of elements of a list or dict.
---
 src/ecoli_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index ec67411..310f9df 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -372,7 +372,7 @@ ssize_t ec_config_count(const struct ec_config *config)
 			n++;
 		return n;
 	case EC_CONFIG_TYPE_DICT:
-		// XXX todo
+		return ec_dict_len(config->dict);
 	default:
 		errno = EINVAL;
 		return -1;
-- 
2.43.0


From 322eefd3e44a4fcebe5642ed547425d7f21bb30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:29 +0000
Subject: [PATCH 45/64] fix: child of seq and or nodes freed twice when it
 cannot be added

Once it is added in the configuration, the child is freed with it.
---
 src/ecoli_node_or.c  | 1 +
 src/ecoli_node_seq.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index afd7c28..de5b28b 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -196,6 +196,7 @@ int ec_node_or_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* freed with config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 37f4a38..3bb3681 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -282,6 +282,7 @@ int ec_node_seq_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* freed with config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
-- 
2.43.0


From 5415f379561ff727f01e5e043d2432c778f63418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:32 +0000
Subject: [PATCH 46/64] fix: leak of token attributes in the re_lex node

The dictionary was not freed when the attribute cannot be set.
---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 2883269..0f048e9 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -112,6 +112,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 	return strvec;
 
 fail:
+	ec_dict_free(attrs);
 	ec_free(dup);
 	ec_strvec_free(strvec);
 	return NULL;
-- 
2.43.0


From 62c01cdf70bc5079b2218f3af0b4687801f647a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:01 +0000
Subject: [PATCH 47/64] fix: yaml: an empty value is accepted as the number 0

strtoll() and strtoull() return 0 without error when there is no digit at
all: 'min:' followed by nothing was the same as 'min: 0'.
---
 src/ecoli_yaml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 7d76e34..be49402 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -60,7 +60,7 @@ parse_llint(const char *str, int64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -91,7 +91,7 @@ parse_ullint(const char *str, uint64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0)
 		return -1;
 
 	errno = save_errno;
-- 
2.43.0


From b77badbecddd94ab6ba129468558721cfcb40c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:43 +0000
Subject: [PATCH 48/64] fix: editline: memory from ec_malloc() released with
 free()

When the application registered its own allocator, this is a leak for it,
or a crash.
---
 src/ecoli_editline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 8e5ff18..f7c3388 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -182,7 +182,7 @@ ec_editline_set_prompt_esc(struct ec_editline *editline, const char *prompt,
 	return 0;
 
 fail:
-	free(copy);
+	ec_free(copy);
 	return -1;
 }
 
@@ -561,7 +561,7 @@ ec_editline_curline(const struct ec_editline *editline, bool trim_after_cursor)
 	return line;
 
 fail:
-	free(line);
+	ec_free(line);
 	return NULL;
 }
 
@@ -728,7 +728,7 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	count = 0;
 
 out:
-	free(line);
+	ec_free(line);
 	ec_pnode_free(p);
 	ec_comp_free(c);
 	return count;
-- 
2.43.0


From 881e7367c8a83de32e9280b208e4ef32a0045678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:43 +0000
Subject: [PATCH 49/64] fix: editline: crash when the contextual help cannot be
 built

The number of helps is -1 in this case, it was used as the size of the
list.
---
 src/ecoli_editline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index f7c3388..5396794 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -614,6 +614,10 @@ ec_editline_complete(EditLine *el, int c)
 
 		count = ec_editline_get_helps(editline, line, full_line,
 				&helps);
+		if (count < 0) {
+			fprintf(err, "completion failure: cannot get helps\n");
+			goto fail;
+		}
 
 		fprintf(out, "\n");
 		if (ec_editline_print_helps(editline, helps, count) < 0) {
-- 
2.43.0


From 7749bca25288bda6d263aaf1d767ca765f7e768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:43 +0000
Subject: [PATCH 50/64] fix: editline: a space is added after a partial
 completion

When the only completion is a partial one (a directory, for instance), the
word is not finished.
---
 src/ecoli_editline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 5396794..b7f306b 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -655,8 +655,8 @@ ec_editline_complete(EditLine *el, int c)
 			fprintf(err, "completion failure: cannot insert\n");
 			goto fail;
 		}
-		if (ec_comp_count(cmpl, EC_COMP_FULL) +
-			ec_comp_count(cmpl, EC_COMP_PARTIAL) == 1) {
+		if (ec_comp_count(cmpl, EC_COMP_FULL) == 1 &&
+			ec_comp_count(cmpl, EC_COMP_PARTIAL) == 0) {
 			if (el_insertstr(el, " ") < 0) {
 				fprintf(err, "completion failure: cannot insert space\n");
 				goto fail;
-- 
2.43.0


From f669cb5be136594d6f523bafba3217d3ff3079ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 51/64] fix: expr: failure to build the expression is ignored

---
 src/ecoli_node_expr.c | 48 +++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 21f032e..59a44f0 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -101,21 +101,12 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 		*post = NULL;
 	unsigned int i;
 
-	ref = priv->child;
-	priv->child = NULL;
-	ec_node_free(ref);
-	ref = NULL;
-
-	if (priv->val_node == NULL) {
-		errno = EINVAL;
-		return -1;
-	}
-
+	/* nothing can be built yet */
+	if (priv->val_node == NULL)
+		return 0;
 	if (priv->bin_ops_len == 0 && priv->pre_ops_len == 0 &&
-			priv->post_ops_len == 0) {
-		errno = EINVAL;
-		return -1;
-	}
+			priv->post_ops_len == 0)
+		return 0;
 
 	/*
 	 * Example of created grammar:
@@ -210,7 +201,9 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 	ec_node_free(ref);
 	ref = NULL;
 
+	ref = priv->child;
 	priv->child = expr;
+	ec_node_free(ref);
 
 	return 0;
 
@@ -290,8 +283,11 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 
 	old_val_node = priv->val_node;
 	priv->val_node = val_node;
+	if (ec_node_expr_build(priv) < 0) {
+		priv->val_node = old_val_node;
+		goto fail;
+	}
 	ec_node_free(old_val_node);
-	ec_node_expr_build(priv);
 
 	return 0;
 
@@ -322,7 +318,10 @@ int ec_node_expr_add_bin_op(struct ec_node *node, struct ec_node *op)
 	priv->bin_ops = bin_ops;
 	bin_ops[priv->bin_ops_len] = op;
 	priv->bin_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->bin_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -353,7 +352,10 @@ int ec_node_expr_add_pre_op(struct ec_node *node, struct ec_node *op)
 	priv->pre_ops = pre_ops;
 	pre_ops[priv->pre_ops_len] = op;
 	priv->pre_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->pre_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -384,7 +386,10 @@ int ec_node_expr_add_post_op(struct ec_node *node, struct ec_node *op)
 	priv->post_ops = post_ops;
 	post_ops[priv->post_ops_len] = op;
 	priv->post_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->post_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -412,17 +417,20 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 		(priv->paren_len + 1) * sizeof(*priv->open_ops));
 	if (open_ops == NULL)
 		goto fail;
+	priv->open_ops = open_ops;
 	close_ops = ec_realloc(priv->close_ops,
 		(priv->paren_len + 1) * sizeof(*priv->close_ops));
 	if (close_ops == NULL)
 		goto fail;
 
-	priv->open_ops = open_ops;
 	priv->close_ops = close_ops;
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
 	priv->paren_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->paren_len--;
+		goto fail;
+	}
 
 	return 0;
 
-- 
2.43.0


From b994e92d6ef061c5bbe0b94c0d2264d34ff1c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 52/64] fix: option, once and bypass nodes created without
 their child

ec_node_option(), ec_node_once() and ec_node_bypass() ignored the failure
to set the child, and returned a node that has none.
---
 src/ecoli_node_bypass.c | 6 +++++-
 src/ecoli_node_once.c   | 6 +++++-
 src/ecoli_node_option.c | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 9cd3f65..f3ad3fc 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -173,12 +173,16 @@ struct ec_node *ec_node_bypass(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_bypass_set_child(node, child);
+	if (ec_node_bypass_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 5ef71f9..4e0b68d 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -215,12 +215,16 @@ struct ec_node *ec_node_once(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_once_set_child(node, child);
+	if (ec_node_once_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index ae0c684..385c7bb 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -181,12 +181,16 @@ struct ec_node *ec_node_option(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_option_set_child(node, child);
+	if (ec_node_option_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From 66b1e8093c76b9888a2ce9d406e2ae7a9e27b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 53/64] fix: cond: crash when the arguments cannot be allocated

The result of ec_realloc() was not checked when the arguments of a
function of the condition were collected.
---
 src/ecoli_node_cond.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index abeabdf..638e0f8 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -616,7 +616,7 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 {
 	const struct ec_pnode *iter;
 	struct cond_result *res = NULL;
-	struct cond_result **args = NULL;
+	struct cond_result **args = NULL, **tmp;
 	const struct ec_pnode *func = NULL, *func_name = NULL, *arg_list = NULL;
 	const struct ec_pnode *value = NULL;
 	const char *id;
@@ -635,7 +635,10 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 
 		iter = ec_pnode_find((void *)arg_list, "id_arg");
 		while (iter != NULL) {
-			args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			tmp = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			if (tmp == NULL)
+				goto fail;
+			args = tmp;
 			args[n_arg] = eval_condition(iter, pstate);
 			if (args[n_arg] == NULL)
 				goto fail;
-- 
2.43.0


From 41a58bc873f95e6c85a0979e6f082a9c7fefe8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 54/64] fix: child freed twice when a list of nodes cannot be
 built

ec_config_node() and ec_config_list_add() free the node on error, do not
free it a second time in ec_node_config_node_list_from_vargs().
---
 src/ecoli_node_helper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_helper.c b/src/ecoli_node_helper.c
index 7440565..06e4241 100644
--- a/src/ecoli_node_helper.c
+++ b/src/ecoli_node_helper.c
@@ -80,8 +80,10 @@ ec_node_config_node_list_from_vargs(va_list ap)
 		if (node == NULL)
 			goto fail;
 
-		if (ec_config_list_add(list, ec_config_node(node)) < 0)
+		if (ec_config_list_add(list, ec_config_node(node)) < 0) {
+			node = NULL; /* freed */
 			goto fail;
+		}
 	}
 
 	return list;
-- 
2.43.0


From 4c334653a1165364a6750d370b4528b7e39e0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 55/64] fix: subset: child freed twice when it cannot be added

ec_node_subset_add() frees the child on error.
---
 src/ecoli_node_subset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index 5383a40..3e1d6e4 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -365,10 +365,11 @@ struct ec_node *__ec_node_subset(const char *id, ...)
 	     child = va_arg(ap, struct ec_node *)) {
 
 		/* on error, don't quit the loop to avoid leaks */
-		if (fail == 1 || child == NULL ||
-				ec_node_subset_add(node, child) < 0) {
+		if (fail == 1 || child == NULL) {
 			fail = 1;
 			ec_node_free(child);
+		} else if (ec_node_subset_add(node, child) < 0) {
+			fail = 1; /* child is freed */
 		}
 	}
 
-- 
2.43.0


From 0bd4e04dd9c85962e1b74b62717d8081c179082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:35 +0000
Subject: [PATCH 56/64] fix: cmd: failure to add the parenthesis to the parser
 is ignored

The command parser was used without its parenthesis operator when there
was not enough memory at initialization.
---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 04a7bd1..4c72be3 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -312,7 +312,7 @@ ec_node_cmd_build_expr(void)
 		ec_node_str(EC_NO_ID, "]"));
 	if (ret < 0)
 		goto fail;
-	ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
+	ret = ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
 		ec_node_str(EC_NO_ID, ")"));
 	if (ret < 0)
 		goto fail;
-- 
2.43.0


From 3366901f2ce03518a93f25a2c6911d0cd9de1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:11 +0000
Subject: [PATCH 57/64] fix: file: a dangling link prevents the completion of
 its directory

If the file system does not give the type of the files, the completion
failed as soon as a file of the directory could not be examined, for
instance a link to a file that does not exist.
---
 src/ecoli_node_file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index 7565a5b..85d1c55 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -186,9 +186,10 @@ ec_node_file_complete(const struct ec_node *node,
 
 			if (dir_fd < 0)
 				goto fail;
+			/* the target of a link may not exist */
 			if (priv->fstatat(dir_fd, de->d_name, &st2, 0) < 0)
-				goto fail;
-			if (S_ISDIR(st2.st_mode))
+				is_dir = 0;
+			else if (S_ISDIR(st2.st_mode))
 				is_dir = 1;
 			else
 				is_dir = 0;
-- 
2.43.0


From e4f77479f2b69e5f4d79a0adac0f881cdc972ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:11 +0000
Subject: [PATCH 58/64] fix: file: failure to add a completion item is ignored

The completion silently lacked some of the files when there was not
enough memory.
---
 src/ecoli_node_file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index 85d1c55..7bda039 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -214,12 +214,12 @@ ec_node_file_complete(const struct ec_node *node,
 		}
 		item = ec_comp_add_item(comp, node, type, input, comp_str);
 		if (item == NULL)
-			goto out;
+			goto fail;
 
 		/* fix the display string: we don't want to display the full
 		 * path. */
 		if (ec_comp_item_set_display(item, disp_str) < 0)
-			goto out;
+			goto fail;
 
 		item = NULL;
 		ec_free(comp_str);
-- 
2.43.0


From cf35556c09e2e77b1e3763548a4a84656c2ec9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:56 +0000
Subject: [PATCH 59/64] fix: str: crash when a node that has no string yet is
 described or dumped

---
 src/ecoli_node_str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_node_str.c b/src/ecoli_node_str.c
index d568430..beac37e 100644
--- a/src/ecoli_node_str.c
+++ b/src/ecoli_node_str.c
@@ -84,6 +84,10 @@ static char *ec_node_str_desc(const struct ec_node *node)
 {
 	struct ec_node_str *priv = ec_node_priv(node);
 
+	/* the string is not set yet */
+	if (priv->string == NULL)
+		return ec_strdup("<str>");
+
 	return ec_strdup(priv->string);
 }
 
-- 
2.43.0


From 0c39ede4ddf7c2743aea5323493b2b39474d01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:27 +0000
Subject: [PATCH 60/64] fix: string: set errno when ec_str_parse_ullint() fails

The documentation says that it is set, as ec_str_parse_llint() does.
---
 src/ecoli_string.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 7d6b717..947f925 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -130,8 +130,10 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, base);
@@ -140,14 +142,20 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*val < min)
+	if (*val < min) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (*val > max)
+	if (*val > max) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (endptr == str || *endptr != 0)
+	if (endptr == str || *endptr != 0) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
-- 
2.43.0


From 32e53cbda74429d3578a6a3118b325c96f136af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:30 +0000
Subject: [PATCH 61/64] fix: murmurhash: do not read unaligned words

The key is documented as unaligned: reading it through a pointer to
uint32_t is undefined in this case, and crashes on some architectures.
---
 src/ecoli_murmurhash.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_murmurhash.c b/src/ecoli_murmurhash.c
index 2435619..aea7347 100644
--- a/src/ecoli_murmurhash.c
+++ b/src/ecoli_murmurhash.c
@@ -2,6 +2,8 @@
  * Copyright 2016, Olivier MATZ <zer0@droids-corp.org>
  */
 
+#include <string.h>
+
 #include <ecoli_murmurhash.h>
 
 uint32_t ec_murmurhash3(const void *key, int len, uint32_t seed)
@@ -11,11 +13,11 @@ uint32_t ec_murmurhash3(const void *key, int len, uint32_t seed)
 	const int nblocks = len / 4;
 	uint32_t h1 = seed;
 	uint32_t k1;
-	const uint32_t *blocks = (const uint32_t *)(data + nblocks * 4);
 	int i;
 
-	for (i = -nblocks; i; i++) {
-		k1 = blocks[i];
+	for (i = 0; i < nblocks; i++) {
+		/* the key may not be aligned */
+		memcpy(&k1, data + i * 4, sizeof(k1));
 
 		h1 = ec_murmurhash3_add32(h1, k1);
 		h1 = ec_murmurhash3_mix32(h1);
-- 
2.43.0


From 2b237bafb6afb92905ca00c67c2855734043208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:50 +0000
Subject: [PATCH 62/64] fix: sh_lex: do not use the completion string of an
 item that has none

When a node proposes an item that does not start with the token being
completed, the item has no completion string. In a quoted argument,
"(null)" was added to it.
---
 src/ecoli_node_sh_lex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index fcc0189..f79072f 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -127,6 +127,8 @@ ec_node_sh_lex_complete(const struct ec_node *node,
 			new_str = NULL;
 
 			str = ec_comp_item_get_completion(item);
+			if (str == NULL) /* it does not extend the token */
+				continue;
 			if (ec_asprintf(&new_str, "%s%c", str,
 					missing_quote) < 0) {
 				new_str = NULL;
-- 
2.43.0


From ec9cbff33d303845ea2d64ce468e8b82b1f93815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:54 +0000
Subject: [PATCH 63/64] fix: editline: crash if an item does not start with the
 completed token

Such an item has no completion string: nothing can be appended.
---
 src/ecoli_editline.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index b7f306b..2522ec9 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -394,6 +394,8 @@ ec_editline_append_chars(const struct ec_comp *cmpl)
 
 	EC_COMP_FOREACH(item, cmpl, EC_COMP_FULL | EC_COMP_PARTIAL) {
 		append = ec_comp_item_get_completion(item);
+		if (append == NULL) /* it does not extend the token */
+			append = "";
 		if (ret == NULL) {
 			ret = ec_strdup(append);
 			if (ret == NULL)
-- 
2.43.0


From 7a09a33c311e2d9f1e30825d75779df4027f58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:17 +0000
Subject: [PATCH 64/64] fix: editline: crash when the prompt is set to NULL

---
 src/ecoli_editline.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 2522ec9..d8ee9b0 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -157,6 +157,8 @@ prompt_cb(EditLine *el)
 
 	if (editline == NULL)
 		return "> ";
+	if (editline->prompt == NULL) /* no prompt */
+		return "";
 
 	return editline->prompt;
 }
-- 
2.43.0

