#include "drv.h"

#define MAXN 4096
static struct ec_node *nodes[MAXN];
static int nnodes;
static struct ec_pnode *last_parse;
static struct ec_comp *last_comp;

struct dyn { int kind; char *id; };
static struct dyn *dyns[MAXN];
static int ndyn;
int g_errno; /* of the last operation that failed */

/* lifetime tracking: handles held by the user, destroyed nodes */
static int track, hcnt[MAXN], dead[MAXN];

static void on_destroy(void *opaque)
{
	int i = (int)(intptr_t)opaque;

	if (dead[i]) {
		fprintf(stderr, "BROKEN node destroyed twice\n");
		abort();
	}
	dead[i] = 1;
}

struct ec_node *g_get(int idx) { return nodes[idx]; }

/* register a node; its reference is given if own is set */
int g_register(struct ec_node *n, int own)
{
	nodes[++nnodes] = n;
	hcnt[nnodes] = own;
	dead[nnodes] = 0;
	return nnodes;
}

int g_idx(const struct ec_node *n)
{
	int i;
	for (i = 1; i <= nnodes; i++)
		if (nodes[i] == n)
			return i;
	return 0;
}

/* the parse tree: n: index of the grammar node (0 if not ours), i: its id,
 * x: has a strvec, m: matched tokens, k: children */
static void j_tree(const struct ec_pnode *p, const struct ec_pnode *mark)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	const struct ec_pnode *c;
	size_t i;

	j_printf("{\"n\":%d,\"i\":", g_idx(ec_pnode_get_node(p)));
	j_str(ec_pnode_get_node(p) ? ec_node_id(ec_pnode_get_node(p)) : "?");
	j_printf(",\"x\":%d", v != NULL);
	if (mark != NULL)
		j_printf(",\"c\":%d", p == mark);
	j_printf(",\"m\":[");
	for (i = 0; v != NULL && i < ec_strvec_len(v); i++) {
		if (i)
			putchar(',');
		j_str(ec_strvec_val(v, i));
	}
	j_printf("],\"k\":[");
	i = 0;
	for (c = ec_pnode_get_first_child(p); c != NULL; c = ec_pnode_next(c)) {
		if (i++)
			putchar(',');
		/* links must be consistent */
		if (ec_pnode_get_parent(c) != p) {
			fprintf(stderr, "BROKEN parent link in parse tree\n");
			abort();
		}
		j_tree(c, mark);
	}
	j_printf("]}");
}

void j_ptree(const struct ec_pnode *p) { j_tree(p, NULL); }

static const char *ctype(enum ec_comp_type t)
{
	return t == EC_COMP_FULL ? "full" : t == EC_COMP_PARTIAL ? "partial" :
		t == EC_COMP_UNKNOWN ? "unknown" : "?";
}

static void j_item(const struct ec_comp_item *it)
{
	j_printf("{\"t\":\"%s\",\"s\":", ctype(ec_comp_item_get_type(it)));
	j_str(ec_comp_item_get_str(it));
	j_printf(",\"c\":");
	j_str(ec_comp_item_get_completion(it));
	j_printf(",\"d\":");
	j_str(ec_comp_item_get_display(it));
	j_printf("}");
}

static void j_comp(const struct ec_comp *comp)
{
	const struct ec_comp_group *grp = NULL;
	struct ec_comp_item *it;
	int ng = 0, ni = 0;
	size_t visited = 0, limit = ec_comp_count(comp, EC_COMP_ALL) + 16;

	j_printf("{\"r\":\"ok\",\"cnt\":[%zu,%zu,%zu,%zu],\"g\":[",
		ec_comp_count(comp, EC_COMP_ALL),
		ec_comp_count(comp, EC_COMP_FULL),
		ec_comp_count(comp, EC_COMP_PARTIAL),
		ec_comp_count(comp, EC_COMP_UNKNOWN));
	for (it = ec_comp_iter_first(comp, EC_COMP_ALL); it != NULL;
	     it = ec_comp_iter_next(it, EC_COMP_ALL)) {
		if (++visited > limit) {
			fprintf(stderr, "RUNAWAY iteration\n");
			abort();
		}
		if (ec_comp_item_get_grp(it) != grp) {
			const struct ec_pnode *st;
			if (grp != NULL)
				j_printf("]},");
			grp = ec_comp_item_get_grp(it);
			st = ec_comp_group_get_pstate(grp);
			j_printf("{\"n\":%d,\"i\":",
				g_idx(ec_comp_group_get_node(grp)));
			j_str(ec_node_id(ec_comp_group_get_node(grp)));
			j_printf(",\"st\":");
			j_tree(EC_PNODE_GET_ROOT(st), st);
			j_printf(",\"it\":[");
			ng++;
			ni = 0;
		}
		if (ni++)
			putchar(',');
		j_item(it);
	}
	if (grp != NULL)
		j_printf("]}");
	/* the same lists through typed iteration */
	j_printf("],\"ty\":[");
	for (ng = 1; ng <= 7; ng++) {
		if (ng > 1)
			putchar(',');
		putchar('[');
		ni = 0;
		visited = 0;
		for (it = ec_comp_iter_first(comp, ng); it != NULL;
		     it = ec_comp_iter_next(it, ng)) {
			if (++visited > limit) {
				fprintf(stderr, "RUNAWAY iteration\n");
				abort();
			}
			if (ni++)
				putchar(',');
			j_printf("\"%c", ctype(ec_comp_item_get_type(it))[0]);
			j_printf("\"");
		}
		putchar(']');
	}
	j_printf("],\"tc\":[");
	for (ng = 0; ng <= 7; ng++)
		j_printf("%s%zu", ng ? "," : "", ec_comp_count(comp, ng));
	j_printf("]}");
}

static unsigned int count_id(const struct ec_pnode *p, const char *id)
{
	const struct ec_pnode *c;
	unsigned int n = 0;

	if (ec_pnode_get_node(p) != NULL &&
	    !strcmp(ec_node_id(ec_pnode_get_node(p)), id))
		n++;
	for (c = ec_pnode_get_first_child(p); c != NULL; c = ec_pnode_next(c))
		n += count_id(c, id);
	return n;
}

/* dynamic nodes: the child depends on the number of already parsed nodes */
static struct ec_node *dyn_build(struct ec_pnode *pstate, void *opaque)
{
	struct dyn *d = opaque;
	unsigned int count;
	char buf[64];

	count = count_id(ec_pnode_get_root(pstate), d->id);
	switch (d->kind) {
	case 0: /* a string that holds the count */
		snprintf(buf, sizeof(buf), "%s%u", d->id, count);
		return ec_node_str("dyn", buf);
	case 1: /* fails when there is no such node */
		if (count == 0) {
			errno = ENOENT;
			return NULL;
		}
		return ec_node_str("dyn", d->id);
	default: /* as many words as nodes already there */
		snprintf(buf, sizeof(buf), "a");
		return ec_node_many("dyn", ec_node_str("dyn", buf), count, count + 1);
	}
}

static int set_cfg(struct ec_node *n, const char *k, struct ec_config *v)
{
	const struct ec_config *cur = ec_node_get_config(n);
	struct ec_config *cfg = cur ? ec_config_dup(cur) : ec_config_dict();

	if (ec_config_dict_set(cfg, k, v) < 0) {
		ec_config_free(cfg);
		return -1;
	}
	return ec_node_set_config(n, cfg);
}

static struct ec_node *kid(struct cmd *c, int i)
{
	return i < c->n ? ec_node_clone(nodes[arg_int(c->w[i])]) : NULL;
}

/* children given as variable arguments */
#define VARGS(f, ...) (c->n <= 5 ? f(__VA_ARGS__, kid(c, 4), EC_VA_END) : \
	c->n == 6 ? f(__VA_ARGS__, kid(c, 4), kid(c, 5), EC_VA_END) : \
	c->n == 7 ? f(__VA_ARGS__, kid(c, 4), kid(c, 5), kid(c, 6), EC_VA_END) : \
	c->n == 8 ? f(__VA_ARGS__, kid(c, 4), kid(c, 5), kid(c, 6), kid(c, 7), EC_VA_END) : \
	f(__VA_ARGS__, kid(c, 4), kid(c, 5), kid(c, 6), kid(c, 7), kid(c, 8), EC_VA_END))

/* children given in a configuration */
static struct ec_node *by_config(struct cmd *c, const char *t, const char *id)
{
	struct ec_config *cfg = ec_config_dict(), *l = ec_config_list();
	struct ec_node *n = ec_node(t, id);
	int i;

	for (i = 4; i < c->n; i++)
		if (ec_config_list_add(l, ec_config_node(kid(c, i))) < 0)
			abort();
	if (ec_config_dict_set(cfg, "children", l) < 0)
		abort();
	if (n != NULL && ec_node_set_config(n, cfg) < 0) {
		ec_node_free(n);
		n = NULL;
	}
	return n;
}

/* N idx type id args... ; child arguments are node indexes (cloned) */
struct ec_node *g_make(struct cmd *c)
{
	int i;
	long fail;
	const char *t = c->w[2];
	char *id = arg_str(c->w[3]);
	char *a = c->n > 4 && c->w[4][0] == 'x' ? arg_str(c->w[4]) : NULL;
	struct ec_node *n = NULL;

	if (!strncmp(t, "user", 4)) {
		n = user_make(c, t, id);
	} else if (t[0] == 'C') {
		n = by_config(c, t + 1, id);
	} else if (!strcmp(t, "Vseq"))
		n = c->n == 4 ? __ec_node_seq(id, EC_VA_END) : VARGS(__ec_node_seq, id);
	else if (!strcmp(t, "Vor"))
		n = c->n == 4 ? __ec_node_or(id, EC_VA_END) : VARGS(__ec_node_or, id);
	else if (!strcmp(t, "Vsubset"))
		n = c->n == 4 ? __ec_node_subset(id, EC_VA_END) : VARGS(__ec_node_subset, id);
	else if (!strcmp(t, "Vcmd")) {
		struct cmd d = { c->n - 1, c->w + 1 }, *save = c;
		c = &d;
		n = c->n == 4 ? __ec_node_cmd(id, a, EC_VA_END) : VARGS(__ec_node_cmd, id, a);
		c = save;
	} else if (!strcmp(t, "Vbypass"))
		n = ec_node_bypass(id, kid(c, 4));
	else if (!strcmp(t, "Vint"))
		n = ec_node_int(id, arg_ll(c->w[4]), arg_ll(c->w[5]), arg_int(c->w[6]));
	else if (!strcmp(t, "Vuint"))
		n = ec_node_uint(id, strtoull(c->w[4], NULL, 10), strtoull(c->w[5], NULL, 10), arg_int(c->w[6]));
	else if (t[0] == '=') /* without configuration */
		n = ec_node(t + 1, id);
	else if (!strcmp(t, "str"))
		n = ec_node_str(id, a);
	else if (!strcmp(t, "any")) {
		if (a != NULL)
			n = ec_node_any(id, a);
		else
			n = ec_node("any", id);
	} else if (!strcmp(t, "int") || !strcmp(t, "uint")) {
		bool sig = t[0] == 'i';
		struct ec_config *cfg;
		fail = fail_at;
		fail_at = 0;
		cfg = ec_config_dict();
		/* args: min max base, "-" when not set */
		if (strcmp(c->w[4], "-"))
			ec_config_dict_set(cfg, "min", sig ?
				ec_config_i64(strtoll(c->w[4], NULL, 10)) :
				ec_config_u64(strtoull(c->w[4], NULL, 10)));
		if (strcmp(c->w[5], "-"))
			ec_config_dict_set(cfg, "max", sig ?
				ec_config_i64(strtoll(c->w[5], NULL, 10)) :
				ec_config_u64(strtoull(c->w[5], NULL, 10)));
		if (strcmp(c->w[6], "-"))
			ec_config_dict_set(cfg, "base",
				ec_config_u64(arg_int(c->w[6])));
		fail_at = fail;
		n = ec_node(t, id);
		if (n == NULL)
			ec_config_free(cfg);
		else if (ec_node_set_config(n, cfg) < 0) {
			ec_node_free(n);
			n = NULL;
		}
	} else if (!strcmp(t, "re"))
		n = ec_node_re(id, a);
	else if (!strcmp(t, "many"))
		n = ec_node_many(id, ec_node_clone(nodes[arg_int(c->w[4])]),
				arg_int(c->w[5]), arg_int(c->w[6]));
	else if (!strcmp(t, "option"))
		n = ec_node_option(id, ec_node_clone(nodes[arg_int(c->w[4])]));
	else if (!strcmp(t, "once"))
		n = ec_node_once(id, ec_node_clone(nodes[arg_int(c->w[4])]));
	else if (!strcmp(t, "sh_lex"))
		n = ec_node_sh_lex(id, ec_node_clone(nodes[arg_int(c->w[4])]));
	else if (!strcmp(t, "bypass")) {
		n = ec_node("bypass", id);
		if (n != NULL && c->n > 4 && ec_node_bypass_set_child(n, kid(c, 4)) < 0) {
			ec_node_free(n);
			n = NULL;
		}
	} else if (!strcmp(t, "cond"))
		n = ec_node_cond(id, a, ec_node_clone(nodes[arg_int(c->w[5])]));
	else if (!strcmp(t, "re_lex")) {
		/* child, then (pattern keep attr)* */
		n = ec_node_re_lex(id, ec_node_clone(nodes[arg_int(c->w[4])]));
		for (i = 5; n != NULL && i + 2 < c->n; i += 3) {
			char *p = arg_str(c->w[i]), *at = arg_str(c->w[i + 2]);
			if (ec_node_re_lex_add(n, p, arg_int(c->w[i + 1]), at) < 0) {
				ec_node_free(n);
				n = NULL;
			}
			free(p);
			free(at);
		}
	} else if (!strcmp(t, "dynamic")) {
		struct dyn *d = malloc(sizeof(*d));
		d->kind = arg_int(c->w[5]);
		d->id = a;
		a = NULL;
		n = ec_node_dynamic(id, dyn_build, d);
		if (n == NULL) {
			free(d->id);
			free(d);
		} else
			dyns[ndyn++] = d;
	} else if (!strcmp(t, "cmd")) {
		struct ec_config *cfg, *l;
		fail = fail_at;
		fail_at = 0;
		cfg = ec_config_dict();
		l = ec_config_list();
		for (i = 5; i < c->n; i++)
			ec_config_list_add(l, ec_config_node(ec_node_clone(
						nodes[arg_int(c->w[i])])));
		ec_config_dict_set(cfg, "expr", ec_config_string(a));
		ec_config_dict_set(cfg, "children", l);
		fail_at = fail;
		n = ec_node("cmd", id);
		if (n == NULL)
			ec_config_free(cfg);
		else if (ec_node_set_config(n, cfg) < 0) {
			ec_node_free(n);
			n = NULL;
		}
	} else
		n = ec_node(t, id);
	free(id);
	free(a);
	return n;
}

void g_set(int idx, struct ec_node *n)
{
	nodes[idx] = n;
	hcnt[idx] = n != NULL;
	dead[idx] = 0;
	if (track && n != NULL && ec_dict_set(ec_node_attrs(n), "_verif",
				(void *)(intptr_t)idx, on_destroy) < 0)
		abort();
	if (idx > nnodes)
		nnodes = idx;
}

void g_drop_last(void)
{
	ec_pnode_free(last_parse);
	last_parse = NULL;
	ec_comp_free(last_comp);
	last_comp = NULL;
}

static void do_add(struct cmd *c)
{
	struct ec_node *n = nodes[arg_int(c->w[1])];
	struct ec_node *k = nodes[arg_int(c->w[2])];
	const char *t = ec_node_get_type_name(n);
	int r;

	if (!strcmp(t, "seq"))
		r = ec_node_seq_add(n, ec_node_clone(k));
	else if (!strcmp(t, "or"))
		r = ec_node_or_add(n, ec_node_clone(k));
	else if (!strcmp(t, "subset"))
		r = ec_node_subset_add(n, ec_node_clone(k));
	else
		r = ec_node_bypass_set_child(n, ec_node_clone(k));
	g_errno = errno;
	if (r < 0)
		printf("{\"o\":\"adderr\"}\n");
}

/* the nodes that are alive, and their children */
void j_live(void)
{
	struct ec_node *k;
	unsigned int refs;
	int i, sep = 0;
	size_t j, n;

	printf("{\"o\":\"live\",\"alive\":[");
	for (i = 1; i <= nnodes; i++)
		if (nodes[i] != NULL && !dead[i])
			printf("%s%d", sep++ ? "," : "", i);
	printf("],\"kids\":[");
	for (i = 1; i <= nnodes; i++) {
		printf("%s[", i > 1 ? "," : "");
		n = nodes[i] == NULL || dead[i] ? 0 :
			ec_node_get_children_count(nodes[i]);
		for (j = 0; j < n; j++) {
			if (ec_node_get_child(nodes[i], j, &k, &refs) < 0)
				abort();
			printf("%s%d", j ? "," : "", g_idx(k));
		}
		printf("]");
	}
	printf("]}\n");
}

/* replace the only child, or the list of children */
static int set_children(struct ec_node *n, struct cmd *c, int list)
{
	const char *t = ec_node_get_type_name(n);
	struct ec_config *l;
	struct ec_node *k;
	int i;

	if (list) {
		l = ec_config_list();
		for (i = 2; i < c->n; i++)
			ec_config_list_add(l, ec_config_node(ec_node_clone(
						nodes[arg_int(c->w[i])])));
		return set_cfg(n, "children", l);
	}
	k = ec_node_clone(nodes[arg_int(c->w[2])]);
	if (!strcmp(t, "bypass"))
		return ec_node_bypass_set_child(n, k);
	if (!strcmp(t, "option"))
		return ec_node_option_set_child(n, k);
	if (!strcmp(t, "once"))
		return ec_node_once_set_child(n, k);
	if (!strcmp(t, "many"))
		return ec_node_many_set_params(n, k, 0, 0);
	return set_cfg(n, "child", ec_config_node(k));
}

void j_parse(const struct ec_pnode *p)
{
	printf("{\"o\":\"parse\",\"r\":\"%s\",\"t\":", p == NULL ? "err" :
		ec_pnode_matches(p) ? "match" : "nomatch");
	if (p != NULL)
		j_ptree(p);
	else
		printf("{\"n\":0,\"i\":\"\",\"x\":0,\"m\":[],\"k\":[]}");
	printf(",\"len\":%zu,\"e\":%d}", ec_pnode_len(p), p == NULL && g_errno == 0);
}

void j_completion(const struct ec_comp *p)
{
	printf("{\"o\":\"comp\",\"c\":");
	if (p == NULL)
		printf("{\"r\":\"err\",\"cnt\":[0,0,0,0],\"g\":[],\"ty\":[],\"tc\":[]}");
	else
		j_comp(p);
	printf(",\"e\":%d}", p == NULL && g_errno == 0);
}

int area_grammar(struct cmd *c)
{
	const char *w = c->w[0];

	if (!strcmp(w, "TRACK")) {
		track = 1;
		return 1;
	}
	if (!strcmp(w, "RV")) {
		j_live();
		return 1;
	}
	if (!strcmp(w, "RH")) { /* RH node: one more handle */
		ec_node_clone(nodes[arg_int(c->w[1])]);
		hcnt[arg_int(c->w[1])]++;
		return 1;
	}
	if (!strcmp(w, "RD")) { /* RD node: drop a handle */
		hcnt[arg_int(c->w[1])]--;
		ec_node_free(nodes[arg_int(c->w[1])]);
		return 1;
	}
	if (!strcmp(w, "RS") || !strcmp(w, "RSL")) { /* node child(ren) */
		if (set_children(nodes[arg_int(c->w[1])], c, w[2] == 'L') < 0)
			printf("{\"o\":\"seterr\"}\n");
		return 1;
	}

	if (!strcmp(w, "RNIL")) { /* as N, with a child that is NULL */
		struct ec_node *n = g_make(c);

		if (n != NULL) {
			printf("{\"o\":\"made\"}\n");
			ec_node_free(n);
		}
		return 1;
	}
	if (!strcmp(w, "RANIL")) { /* add NULL */
		struct ec_node *n = nodes[arg_int(c->w[1])];
		const char *t = ec_node_get_type_name(n);

		if ((!strcmp(t, "seq") ? ec_node_seq_add(n, NULL) : !strcmp(t, "or") ? ec_node_or_add(n, NULL) :
				ec_node_subset_add(n, NULL)) >= 0)
			printf("{\"o\":\"made\"}\n");
		return 1;
	}
	if (!strcmp(w, "N")) {
		g_set(arg_int(c->w[1]), g_make(c));
		return 1;
	}
	if (!strcmp(w, "A")) {
		do_add(c);
		return 1;
	}
	if (!strcmp(w, "V")) { /* V node string: its integer value */
		struct ec_node *n = nodes[arg_int(c->w[1])];
		char *str = arg_str(c->w[2]);
		uint64_t u = 0;
		int64_t i = 0;
		int r;

		if (n == NULL) {
			printf("{\"o\":\"null\"}\n");
		} else if (!strcmp(ec_node_get_type_name(n), "int")) {
			r = ec_node_int_getval(n, str, &i);
			printf("{\"o\":\"val\",\"r\":%d,\"v\":\"%" PRId64 "\"}\n",
				r == 0, r == 0 ? i : 0);
		} else {
			r = ec_node_uint_getval(n, str, &u);
			printf("{\"o\":\"val\",\"r\":%d,\"v\":\"%" PRIu64 "\"}\n",
				r == 0, r == 0 ? u : 0);
		}
		free(str);
		return 1;
	}
	if (!strcmp(w, "OK")) { /* OK node: was it created? */
		printf("{\"o\":\"ok\",\"r\":\"%s\"}\n",
			nodes[arg_int(c->w[1])] ? "ok" : "null");
		return 1;
	}
	if ((!strcmp(w, "P") || !strcmp(w, "L")) &&
			nodes[arg_int(c->w[1])] == NULL) {
		printf("{\"o\":\"null\"}\n");
		return 1;
	}
	if (!strcmp(w, "P") || !strcmp(w, "PS")) { /* P root tokens... */
		struct ec_strvec *v = arg_strvec(c, 2);
		struct ec_pnode *p;

		errno = 0;
		if (w[1] == 'S')
			p = ec_parse(nodes[arg_int(c->w[1])], ec_strvec_val(v, 0));
		else
			p = ec_parse_strvec(nodes[arg_int(c->w[1])], v);
		g_errno = p == NULL ? errno : 0;
		j_parse(p);
		printf("\n");
		ec_pnode_free(last_parse);
		last_parse = p;
		ec_strvec_free(v);
		return 1;
	}
	if (!strcmp(w, "L") || !strcmp(w, "LS")) { /* L root tokens... */
		struct ec_strvec *v = arg_strvec(c, 2);
		struct ec_comp *p;

		errno = 0;
		if (w[1] == 'S')
			p = ec_complete(nodes[arg_int(c->w[1])], ec_strvec_val(v, 0));
		else
			p = ec_complete_strvec(nodes[arg_int(c->w[1])], v);
		g_errno = p == NULL ? errno : 0;
		j_completion(p);
		printf("\n");
		ec_comp_free(last_comp);
		last_comp = p;
		ec_strvec_free(v);
		return 1;
	}
	if (!strcmp(w, "FIND")) { /* FIND root id */
		char *id = arg_str(c->w[2]);
		struct ec_node *n = ec_node_find(nodes[arg_int(c->w[1])], id);
		printf("{\"o\":\"find\",\"n\":%d}\n", n ? g_idx(n) : -1);
		free(id);
		return 1;
	}
	return 0;
}

void area_grammar_reset(void)
{
	int i;

	g_drop_last();
	for (i = 1; i <= nnodes; i++) {
		for (; hcnt[i] > 0; hcnt[i]--)
			ec_node_free(nodes[i]);
	}
	for (i = 1; i <= nnodes; i++) {
		if (track && nodes[i] != NULL && !dead[i])
			live_allocs += 1000000; /* reported as a leak */
		nodes[i] = NULL;
		dead[i] = 0;
	}
	track = 0;
	nnodes = 0;
	for (i = 0; i < ndyn; i++) {
		free(dyns[i]->id);
		free(dyns[i]);
	}
	ndyn = 0;
	user_reset();
}
