/* what the library tells about its objects: searches, lists of children, dumps */
#include "drv.h"

#define MAXG 400
static const struct ec_node *seen[MAXG + 1];
static int nseen;

static int local(const struct ec_node *n)
{
	int i;

	for (i = 1; i <= nseen; i++)
		if (seen[i] == n)
			return i;
	if (nseen == MAXG)
		exit(5);
	seen[++nseen] = n;
	return nseen;
}

/* the lines of a text; the addresses of the nodes are replaced by their numbers */
static void j_lines(char *text)
{
	char *l, *sv = NULL, *p, *e, *out;
	int sep = 0, i;
	size_t n;

	printf("[");
	for (l = strtok_r(text, "\n", &sv); l != NULL; l = strtok_r(NULL, "\n", &sv)) {
		if (!strncmp(l, "---------", 9))
			continue;
		p = strstr(l, " refs=");
		if (p != NULL)
			*p = 0;
		out = calloc(1, strlen(l) * 2 + 64);
		n = 0;
		for (p = l; *p; ) {
			if (p[0] == '0' && p[1] == 'x' && (p == l || !((p[-1] >= '0' && p[-1] <= '9')))) {
				const void *a = (const void *)(uintptr_t)strtoull(p, &e, 16);
				for (i = 1; i <= nseen; i++)
					if (seen[i] == a)
						break;
				if (e > p + 4 && i <= nseen) {
					n += sprintf(out + n, "@%d", i);
					p = e;
					continue;
				}
			}
			out[n++] = *p++;
		}
		printf("%s", sep++ ? "," : "");
		j_str(out);
		free(out);
	}
	printf("]");
}

static FILE *f;
static char *text;
static size_t text_len;

static FILE *begin(void)
{
	text = NULL;
	f = open_memstream(&text, &text_len);
	if (f == NULL)
		exit(5);
	return f;
}

static void end(void)
{
	fclose(f);
	j_lines(text);
	free(text);
}

static void j_desc(const struct ec_node *n)
{
	char *d = ec_node_desc(n);

	j_str(d);
	ec_free(d);
}

/* IG n: the graph under a node */
static void graph(struct ec_node *n)
{
	struct ec_node *k;
	unsigned int refs;
	int i, sep;
	size_t j;

	nseen = 0;
	local(n);
	printf("{\"o\":\"ig\",\"g\":[");
	for (i = 1; i <= nseen; i++) {
		n = (struct ec_node *)seen[i];
		printf("%s{\"n\":%d,\"t\":", i > 1 ? "," : "", g_idx(n));
		j_str(ec_node_get_type_name(n));
		printf(",\"t2\":");
		j_str(ec_node_type_name(ec_node_type(n)));
		printf(",\"i\":");
		j_str(ec_node_id(n));
		printf(",\"d\":");
		j_desc(n);
		printf(",\"k\":[");
		for (sep = 0, j = 0; j < ec_node_get_children_count(n); j++) {
			if (ec_node_get_child(n, j, &k, &refs) < 0 || k == NULL)
				abort();
			printf("%s%d", sep++ ? "," : "", local(k));
		}
		printf("]");
		/* there is no other one */
		for (sep = 0, j = 0; j < 4; j++) {
			size_t at = j < 3 ? ec_node_get_children_count(n) + j : SIZE_MAX;
			k = n;
			ec_node_get_child(n, at, &k, &refs);
			if (k != NULL)
				sep = 1;
		}
		printf(",\"x\":%d}", sep);
	}
	printf("],\"l\":");
	ec_node_dump(begin(), seen[1]);
	end();
	printf("}\n");
}

static void tree(const struct ec_pnode *p)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	const struct ec_node *n = ec_pnode_get_node(p);
	const struct ec_pnode *c;
	size_t i;
	int sep = 0;

	printf("{\"t\":");
	j_str(n ? ec_node_get_type_name(n) : "none");
	printf(",\"i\":");
	j_str(n ? ec_node_id(n) : "none");
	printf(",\"d\":");
	if (n)
		j_desc(n);
	else
		j_str("none");
	printf(",\"x\":%d,\"m\":[", v != NULL);
	for (i = 0; v != NULL && i < ec_strvec_len(v); i++) {
		printf("%s", i ? "," : "");
		j_str(ec_strvec_val(v, i));
	}
	printf("],\"k\":[");
	for (c = ec_pnode_get_first_child(p); c != NULL; c = ec_pnode_next(c)) {
		printf("%s", sep++ ? "," : "");
		tree(c);
	}
	printf("]}");
}

static void comp(struct ec_comp *c)
{
	const struct ec_comp_group *grp = NULL, *g;
	const struct ec_pnode *st = NULL;
	struct ec_comp_item *it;
	int sep = 0, n = 0;

	nseen = 0;
	printf("{\"o\":\"il\",\"r\":\"%s\",\"cnt\":[%zu,%zu,%zu,%zu],\"g\":[", c ? "ok" : "err",
		c ? ec_comp_count(c, EC_COMP_ALL) : 0, c ? ec_comp_count(c, EC_COMP_FULL) : 0,
		c ? ec_comp_count(c, EC_COMP_PARTIAL) : 0, c ? ec_comp_count(c, EC_COMP_UNKNOWN) : 0);
	for (it = c ? ec_comp_iter_first(c, EC_COMP_ALL) : NULL; it != NULL; it = ec_comp_iter_next(it, EC_COMP_ALL)) {
		g = ec_comp_item_get_grp(it);
		if (g != grp) {
			printf("%s{\"n\":%d,\"t\":", grp ? "]}," : "", local(ec_comp_group_get_node(g)));
			j_str(ec_node_get_type_name(ec_comp_group_get_node(g)));
			printf(",\"it\":[");
			grp = g;
			n = 0;
			st = ec_comp_group_get_pstate(g);
		}
		printf("%s{\"t\":\"%s\",\"s\":", n++ ? "," : "",
			ec_comp_item_get_type(it) == EC_COMP_FULL ? "full" :
			ec_comp_item_get_type(it) == EC_COMP_PARTIAL ? "partial" : "unknown");
		if (ec_comp_item_get_str(it))
			j_str(ec_comp_item_get_str(it));
		else
			j_str("(null)");
		printf(",\"c\":");
		if (ec_comp_item_get_completion(it))
			j_str(ec_comp_item_get_completion(it));
		else
			j_str("(null)");
		printf(",\"d\":");
		if (ec_comp_item_get_display(it))
			j_str(ec_comp_item_get_display(it));
		else
			j_str("(null)");
		printf("}");
	}
	(void)sep;
	printf("%s],\"l\":", grp ? "]}" : "");
	ec_comp_dump(begin(), c);
	end();
	/* the parse tree of a completion is incomplete */
	printf(",\"st\":[");
	if (st != NULL)
		tree(EC_PNODE_GET_ROOT(st));
	printf("],\"sl\":");
	if (st != NULL) {
		ec_pnode_dump(begin(), EC_PNODE_GET_ROOT(st));
		end();
	} else
		printf("[]");
	printf("}\n");
}

/* the same functions when memory runs out: they cannot tell, but lose nothing */
static long starved(struct ec_node *n, const struct ec_strvec *v)
{
	struct ec_pnode *p = ec_parse_strvec(n, v);
	struct ec_comp *c = ec_complete_strvec(n, v);
	long base = live_allocs, fired = 1;
	int k;

	for (k = 1; fired && k < 60; k++) {
		begin();
		fail_fired = 0;
		fail_at = k;
		ec_node_dump(f, n);
		fired = fail_fired;
		fail_fired = 0;
		fail_at = k;
		ec_pnode_dump(f, p);
		fired |= fail_fired;
		fail_fired = 0;
		fail_at = k;
		ec_comp_dump(f, c);
		ec_config_dump(f, ec_node_get_config(n));
		fired |= fail_fired;
		fail_fired = 0;
		fail_at = k;
		ec_free(ec_node_desc(n));
		ec_node_find(n, "zz");
		fired |= fail_fired;
		fail_at = 0;
		fclose(f);
		free(text);
	}
	base = live_allocs - base;
	ec_pnode_free(p);
	ec_comp_free(c);
	return base;
}

int area_intro(struct cmd *c)
{
	struct ec_strvec *v;
	struct ec_config_schema *sc;
	struct ec_config *cf;
	struct ec_pnode *p;
	struct ec_comp *co;
	char *s;
	int i;

	if (!strcmp(c->w[0], "IG"))
		graph(g_get(arg_int(c->w[1])));
	else if (!strcmp(c->w[0], "IF")) { /* IF n id */
		s = arg_str(c->w[2]);
		printf("{\"o\":\"if\",\"n\":%d}\n", g_idx(ec_node_find(g_get(arg_int(c->w[1])), s)));
		free(s);
	} else if (!strcmp(c->w[0], "IP")) { /* IP n words... */
		v = arg_strvec(c, 2);
		p = ec_parse_strvec(g_get(arg_int(c->w[1])), v);
		nseen = 0;
		printf("{\"o\":\"ip\",\"t\":[");
		if (p != NULL)
			tree(p);
		printf("],\"l\":");
		ec_pnode_dump(begin(), p);
		end();
		printf("}\n");
		ec_pnode_free(p);
		ec_strvec_free(v);
	} else if (!strcmp(c->w[0], "IL")) {
		v = arg_strvec(c, 2);
		co = ec_complete_strvec(g_get(arg_int(c->w[1])), v);
		comp(co);
		ec_comp_free(co);
		ec_strvec_free(v);
	} else if (!strcmp(c->w[0], "IX")) {
		v = arg_strvec(c, 2);
		printf("{\"o\":\"ix\",\"leak\":%ld}\n", starved(g_get(arg_int(c->w[1])), v));
		ec_strvec_free(v);
	} else if (!strcmp(c->w[0], "IV")) {
		v = arg_strvec(c, 1);
		nseen = 0;
		printf("{\"o\":\"iv\",\"l\":");
		ec_strvec_dump(begin(), v);
		end();
		printf("}\n");
		ec_strvec_free(v);
	} else if (!strcmp(c->w[0], "IC")) { /* IC value */
		nseen = 0;
		local(g_get(1));
		local(g_get(2));
		i = 1;
		cf = arg_cfg(c, &i);
		printf("{\"o\":\"ic\",\"v\":");
		j_cfg(cf);
		printf(",\"l\":");
		ec_config_dump(begin(), cf);
		end();
		printf("}\n");
		ec_config_free(cf);
	} else if (!strcmp(c->w[0], "IS")) { /* IS schema */
		nseen = 0;
		i = 1;
		sc = arg_schema(c, &i);
		printf("{\"o\":\"is\",\"l\":");
		ec_config_schema_dump(begin(), sc);
		end();
		printf("}\n");
		arg_schema_free(sc);
	} else if (!strcmp(c->w[0], "ID")) { /* ID {key value}: value is 0 or a node */
		struct ec_dict *d = ec_dict();
		struct ec_htable *h = ec_htable();
		struct ec_dict_elt_ref *it;
		int sep = 0, k;

		nseen = 0;
		local(g_get(1));
		local(g_get(2));
		for (i = 1; i + 1 < c->n; i += 2) {
			s = arg_str(c->w[i]);
			k = arg_int(c->w[i + 1]);
			if (ec_dict_set(d, s, k ? g_get(k) : NULL, NULL) < 0 ||
			    ec_htable_set(h, s, strlen(s) + 1, k ? g_get(k) : NULL, NULL) < 0)
				abort();
			free(s);
		}
		printf("{\"o\":\"id\",\"it\":[");
		for (it = ec_dict_iter(d); it != NULL; it = ec_dict_iter_next(it)) {
			printf("%s{\"k\":", sep++ ? "," : "");
			j_str(ec_dict_iter_get_key(it));
			printf(",\"v\":%d}", ec_dict_iter_get_val(it) ? local(ec_dict_iter_get_val(it)) : 0);
		}
		printf("],\"l\":");
		ec_dict_dump(begin(), d);
		end();
		printf(",\"h\":");
		ec_htable_dump(begin(), h);
		end();
		printf("}\n");
		ec_dict_free(d);
		ec_htable_free(h);
	} else if (!strcmp(c->w[0], "I0")) { /* dumps of nothing */
		nseen = 0;
		printf("{\"o\":\"i0\",\"l\":");
		begin();
		ec_node_dump(f, NULL);
		ec_pnode_dump(f, NULL);
		ec_comp_dump(f, NULL);
		ec_strvec_dump(f, NULL);
		ec_dict_dump(f, NULL);
		ec_htable_dump(f, NULL);
		ec_config_dump(f, NULL);
		ec_config_schema_dump(f, NULL);
		end();
		printf("}\n");
	} else if (!strcmp(c->w[0], "IT")) {
		nseen = 0;
		printf("{\"o\":\"it\",\"l\":");
		ec_node_type_dump(begin());
		end();
		printf("}\n");
	} else
		return 0;
	return 1;
}
