/* node types that an application defines: their behaviour is a configuration */
#include "drv.h"

struct user {
	const char *rules;      /* of the configuration */
	const char *items;
	struct ec_node *child;
	int kind, skip, cerr;
	char zero[16];
	int once;               /* set by init_priv */
};

static int nlive;

static int user_init(struct ec_node *node)
{
	struct user *u = ec_node_priv(node);
	size_t i;

	for (i = 0; i < sizeof(*u); i++)
		if (((char *)u)[i] != 0)
			abort();        /* the private area must be zeroed */
	u->once = 1;
	nlive++;
	return 0;
}

static void user_free(struct ec_node *node)
{
	struct user *u = ec_node_priv(node);

	if (u->once != 1)
		abort();
	u->once = 2;
	nlive--;
	ec_node_free(u->child);
}

/* what the rules "word=n,word=n," say about this vector: -1 no match, -2 error */
static int rule(const struct user *u, const struct ec_strvec *v)
{
	const char *w = ec_strvec_len(v) ? ec_strvec_val(v, 0) : "", *p;
	char sep[2] = { ec_strvec_len(v) ? '=' : '!', 0 };
	size_t n = strlen(w);

	for (p = u->rules ? u->rules : ""; *p; p = strchr(p, ',') + 1) {
		if ((!strncmp(p, w, n) && p[n] == sep[0]) || (*p == '*' && p[1] == sep[0] && sep[0] == '='))
			return atoi(strchr(p, sep[0]) + 1);
	}
	return -1;
}

static int apply(const struct user *u, const struct ec_strvec *v)
{
	int r = rule(u, v);

	if (r == -2) {
		errno = EIO;
		return -2;
	}
	return r < 0 || (size_t)r > ec_strvec_len(v) ? EC_PARSE_NOMATCH : r;
}

static int user_parse(const struct ec_node *node, struct ec_pnode *pstate, const struct ec_strvec *v)
{
	struct user *u = ec_node_priv(node);
	struct ec_strvec *sub;
	int r, r2;

	if (ec_pnode_get_node(pstate) != node)
		abort();
	switch (u->kind) {
	case 1: /* skip words, then the child */
		if (ec_strvec_len(v) < (size_t)u->skip)
			return EC_PARSE_NOMATCH;
		sub = ec_strvec_ndup(v, u->skip, ec_strvec_len(v) - u->skip);
		if (sub == NULL)
			return -1;
		r = ec_parse_child(u->child, pstate, sub);
		ec_strvec_free(sub);
		if (r < 0 || r == EC_PARSE_NOMATCH)
			return r;
		return r + u->skip;
	case 2: /* the child must match, and is forgotten */
		r = ec_parse_child(u->child, pstate, v);
		if (r < 0 || r == EC_PARSE_NOMATCH)
			return r;
		ec_pnode_del_last_child(pstate);
		return apply(u, v);
	case 3: /* the child once or twice */
		r = ec_parse_child(u->child, pstate, v);
		if (r < 0 || r == EC_PARSE_NOMATCH)
			return r;
		sub = ec_strvec_ndup(v, r, ec_strvec_len(v) - r);
		if (sub == NULL)
			return -1;
		r2 = ec_parse_child(u->child, pstate, sub);
		ec_strvec_free(sub);
		if (r2 < 0)
			return r2;
		return r2 == EC_PARSE_NOMATCH ? r : r + r2;
	}
	return apply(u, v);
}

/* items "when,type,string;": when is b or a (before, after the child), type is
 * f, p, u or r (full item without its start) */
static int propose(const struct ec_node *node, struct ec_comp *comp, const struct ec_strvec *v, char when)
{
	struct user *u = ec_node_priv(node);
	const char *p, *start;
	char full[64];

	if (ec_strvec_len(v) != 1)
		return 0;
	start = ec_strvec_val(v, 0);
	for (p = u->items ? u->items : ""; *p; p = strchr(p, ';') + 1) {
		if (p[0] != when)
			continue;
		snprintf(full, sizeof(full), "%.*s", (int)(strchr(p, ';') - p - 4), p + 4);
		if (p[2] == 'u') {
			if (ec_comp_add_item(comp, node, EC_COMP_UNKNOWN, NULL, NULL) == NULL)
				return -1;
		} else if (p[2] == 'r') {
			if (ec_comp_add_item(comp, node, EC_COMP_FULL, NULL, full) == NULL)
				return -1;
		} else if (!strncmp(full, start, strlen(start)) &&
				ec_comp_add_item(comp, node, p[2] == 'f' ? EC_COMP_FULL : EC_COMP_PARTIAL, start, full) == NULL)
			return -1;
	}
	return 0;
}

static int user_complete(const struct ec_node *node, struct ec_comp *comp, const struct ec_strvec *v)
{
	struct user *u = ec_node_priv(node);
	struct ec_strvec *sub;
	size_t skip = u->kind == 1 ? u->skip : 0;
	int r, n;

	if (ec_pnode_get_node(ec_comp_get_cur_pstate(comp)) != node)
		abort();
	if (propose(node, comp, v, 'b') < 0)
		return -1;
	for (n = 0; u->kind != 0 && n < (u->kind == 3 ? 2 : 1) && ec_strvec_len(v) > skip; n++) {
		sub = ec_strvec_ndup(v, skip, ec_strvec_len(v) - skip);
		if (sub == NULL)
			return -1;
		r = ec_complete_child(u->child, comp, sub);
		ec_strvec_free(sub);
		if (r < 0)
			return r;
	}
	if (propose(node, comp, v, 'a') < 0)
		return -1;
	if (u->cerr) {
		errno = EIO;
		return -3;
	}
	return 0;
}

static size_t user_count(const struct ec_node *node)
{
	struct user *u = ec_node_priv(node);

	return u->child != NULL;
}

static int user_child(const struct ec_node *node, size_t i, struct ec_node **child, unsigned int *refs)
{
	struct user *u = ec_node_priv(node);

	if (i != 0)
		return -1;
	*child = u->child;
	*refs = 2;
	return 0;
}

static const struct ec_config_schema user_schema[] = {
	{ .key = "rules", .desc = "rules", .type = EC_CONFIG_TYPE_STRING },
	{ .key = "items", .desc = "items", .type = EC_CONFIG_TYPE_STRING },
	{ .key = "child", .desc = "child", .type = EC_CONFIG_TYPE_NODE },
	{ .key = "kind", .desc = "kind", .type = EC_CONFIG_TYPE_UINT64 },
	{ .key = "skip", .desc = "skip", .type = EC_CONFIG_TYPE_UINT64 },
	{ .key = "cerr", .desc = "cerr", .type = EC_CONFIG_TYPE_BOOL },
	{ .type = EC_CONFIG_TYPE_NONE },
};

static int user_config(struct ec_node *node, const struct ec_config *cfg)
{
	struct user *u = ec_node_priv(node);
	const struct ec_config *v;
	struct ec_node *old = u->child;

	v = ec_config_dict_get(cfg, "kind");
	u->kind = v ? v->u64 : 0;
	v = ec_config_dict_get(cfg, "child");
	if (u->kind != 0 && v == NULL) {
		errno = EINVAL;
		return -1;
	}
	u->child = v ? ec_node_clone(v->node) : NULL;
	ec_node_free(old);
	v = ec_config_dict_get(cfg, "rules");
	u->rules = v ? v->string : NULL;
	v = ec_config_dict_get(cfg, "items");
	u->items = v ? v->string : NULL;
	v = ec_config_dict_get(cfg, "skip");
	u->skip = v ? v->u64 : 0;
	v = ec_config_dict_get(cfg, "cerr");
	u->cerr = v ? v->boolean : 0;
	return 0;
}

static struct ec_node_type user_type = {
	.name = "user",
	.schema = user_schema,
	.set_config = user_config,
	.parse = user_parse,
	.complete = user_complete,
	.size = sizeof(struct user),
	.init_priv = user_init,
	.free_priv = user_free,
	.get_children_count = user_count,
	.get_child = user_child,
};

/* without its own completion */
static struct ec_node_type user0_type = {
	.name = "user0",
	.schema = user_schema,
	.set_config = user_config,
	.parse = user_parse,
	.size = sizeof(struct user),
	.init_priv = user_init,
	.free_priv = user_free,
	.get_children_count = user_count,
	.get_child = user_child,
};

/* args: rules items kind skip cerr [child] */
struct ec_node *user_make(struct cmd *c, const char *type, const char *id)
{
	static int known;
	struct ec_config *cfg;
	struct ec_node *n;
	long fail;
	char *s;

	if (!known && (ec_node_type_register(&user_type, 0) < 0 || ec_node_type_register(&user0_type, 0) < 0))
		abort();
	known = 1;
	fail = fail_at;
	fail_at = 0;
	cfg = ec_config_dict();
	s = arg_str(c->w[4]);
	ec_config_dict_set(cfg, "rules", ec_config_string(s));
	free(s);
	s = arg_str(c->w[5]);
	ec_config_dict_set(cfg, "items", ec_config_string(s));
	free(s);
	ec_config_dict_set(cfg, "kind", ec_config_u64(arg_int(c->w[6])));
	ec_config_dict_set(cfg, "skip", ec_config_u64(arg_int(c->w[7])));
	ec_config_dict_set(cfg, "cerr", ec_config_bool(arg_int(c->w[8])));
	if (c->n > 9)
		ec_config_dict_set(cfg, "child", ec_config_node(ec_node_clone(g_get(arg_int(c->w[9])))));
	fail_at = fail;
	n = ec_node(type, id);
	if (n == NULL)
		ec_config_free(cfg);
	else if (ec_node_set_config(n, cfg) < 0) {
		ec_node_free(n);
		n = NULL;
	}
	return n;
}

/* after a case, when all the nodes are freed */
void user_reset(void)
{
	if (nlive != 0)
		abort();
}
