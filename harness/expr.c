/* expr nodes: construction and evaluation with tracked values */
#include "drv.h"

struct val {
	int dead;
	char *s;
	struct val *next;
};

struct ectx {
	struct val *vals;
	int mode;       /* 1: results replace their first operand in place */
	int fail;       /* the Nth callback fails (0: never) */
	int calls;
	long bogus;
};

static void broken(const char *what)
{
	fprintf(stderr, "BROKEN %s\n", what);
	abort();
}

static struct val *val_new(struct ectx *x, char *s)
{
	struct val *v = calloc(1, sizeof(*v));

	v->s = s;
	v->next = x->vals;
	x->vals = v;
	return v;
}

/* the value must be one that we gave, and still alive */
static struct val *val_check(struct ectx *x, void *p)
{
	struct val *v;

	for (v = x->vals; v != NULL; v = v->next)
		if (v == p)
			break;
	if (v == NULL)
		broken("unknown value given to a callback");
	if (v->dead)
		broken("freed value given to a callback");
	return v;
}

static char *matched(const struct ec_pnode *p)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	size_t i, n = 1;
	char *s;

	for (i = 0; i < ec_strvec_len(v); i++)
		n += strlen(ec_strvec_val(v, i)) + 1;
	s = calloc(1, n);
	for (i = 0; i < ec_strvec_len(v); i++) {
		if (i)
			strcat(s, " ");
		strcat(s, ec_strvec_val(v, i));
	}
	return s;
}

static int must_fail(struct ectx *x, void **result)
{
	if (++x->calls != x->fail)
		return 0;
	/* result is undefined on error */
	if (x->mode & 2)
		*result = &x->bogus;
	else if (x->mode & 4)
		*result = NULL;
	errno = EDOM;
	return 1;
}

static char *fmt(const char *f, const char *a, const char *b, const char *c)
{
	size_t n = strlen(f) + strlen(a) + strlen(b) + strlen(c) + 1;
	char *s = malloc(n);

	snprintf(s, n, f, a, b, c);
	return s;
}

static int finish(struct ectx *x, void **result, struct val *a, struct val *b, char *s)
{
	if (b != NULL)
		b->dead = 1;
	if (a != NULL && (x->mode & 1)) {
		free(a->s);
		a->s = s;
		*result = a;
		return 0;
	}
	if (a != NULL)
		a->dead = 1;
	*result = val_new(x, s);
	return 0;
}

static int cb_var(void **result, void *userctx, const struct ec_pnode *var)
{
	struct ectx *x = userctx;
	char idx[16], *m;
	int r;

	if (must_fail(x, result))
		return -1;
	m = matched(var);
	snprintf(idx, sizeof(idx), "%d", g_idx(ec_pnode_get_node(var)));
	r = finish(x, result, NULL, NULL, fmt("%s=%s%s", idx, m, ""));
	free(m);
	return r;
}

static int cb_un(void **result, struct ectx *x, void *operand,
		const struct ec_pnode *op, const char *f, int swap)
{
	struct val *a = val_check(x, operand);
	char *m;

	if (must_fail(x, result))
		return -1;
	m = matched(op);
	finish(x, result, a, NULL, swap ? fmt(f, a->s, m, "") : fmt(f, m, a->s, ""));
	free(m);
	return 0;
}

static int cb_pre(void **result, void *userctx, void *operand, const struct ec_pnode *op)
{
	return cb_un(result, userctx, operand, op, "{%s %s}%s", 0);
}

static int cb_post(void **result, void *userctx, void *operand, const struct ec_pnode *op)
{
	return cb_un(result, userctx, operand, op, "<%s %s>%s", 1);
}

static int cb_bin(void **result, void *userctx, void *operand1,
		const struct ec_pnode *op, void *operand2)
{
	struct ectx *x = userctx;
	struct val *a = val_check(x, operand1), *b = val_check(x, operand2);
	char *m;

	if (a == b)
		broken("the same value is given twice");
	if (must_fail(x, result))
		return -1;
	m = matched(op);
	finish(x, result, a, b, fmt("[%s %s %s]", a->s, m, b->s));
	free(m);
	return 0;
}

static int cb_paren(void **result, void *userctx, const struct ec_pnode *open,
		const struct ec_pnode *close, void *value)
{
	struct ectx *x = userctx;
	struct val *a = val_check(x, value);
	char *m, *n;

	if (must_fail(x, result))
		return -1;
	m = matched(open);
	n = matched(close);
	finish(x, result, a, NULL, fmt("`%s %s %s'", m, a->s, n));
	free(m);
	free(n);
	return 0;
}

static void cb_free(void *result, void *userctx)
{
	val_check(userctx, result)->dead = 1;
}

static const struct ec_pnode *find_pnode(const struct ec_pnode *p, const struct ec_node *n)
{
	const struct ec_pnode *c, *r;

	if (ec_pnode_get_node(p) == n)
		return p;
	for (c = ec_pnode_get_first_child(p); c != NULL; c = ec_pnode_next(c)) {
		r = find_pnode(c, n);
		if (r != NULL)
			return r;
	}
	return NULL;
}

/* EV root expr mode fail missing tokens...: parse, then evaluate */
static void do_eval(struct cmd *c)
{
	struct ec_node *root = g_get(arg_int(c->w[1])), *expr = g_get(arg_int(c->w[2]));
	struct ec_node_expr_eval_ops ops = {
		cb_var, cb_pre, cb_post, cb_bin, cb_paren, cb_free,
	};
	struct ectx x = { .mode = arg_int(c->w[3]), .fail = arg_int(c->w[4]) };
	struct ec_strvec *v = arg_strvec(c, 6);
	struct ec_pnode *p = ec_parse_strvec(root, v);
	int e = errno;
	const struct ec_pnode *q = NULL;
	void *result = &x.bogus;
	struct val *w, *res = NULL;
	int r, lost = 0;

	switch (arg_int(c->w[5])) {
	case 1: ops.eval_var = NULL; break;
	case 2: ops.eval_pre_op = NULL; break;
	case 3: ops.eval_post_op = NULL; break;
	case 4: ops.eval_bin_op = NULL; break;
	case 5: ops.eval_parenthesis = NULL; break;
	case 6: ops.eval_free = NULL; break;
	}
	if (p != NULL)
		q = x.mode & 8 ? p : find_pnode(p, expr);
	if (p == NULL || q == NULL) {
		g_errno = e;
		printf("{\"o\":\"eval\",\"r\":\"noparse\",\"v\":\"\",\"lost\":0,\"calls\":0,\"e\":0}\n");
		goto out;
	}
	errno = 0;
	r = ec_node_expr_eval(&result, expr, (struct ec_pnode *)q,
			arg_int(c->w[5]) == 7 ? NULL : &ops, &x);
	g_errno = errno;
	if (r == 0)
		res = val_check(&x, result);
	for (w = x.vals; w != NULL; w = w->next)
		if (!w->dead && w != res)
			lost++;
	printf("{\"o\":\"eval\",\"r\":\"%s\",\"v\":", r == 0 ? "ok" : "err");
	j_str(res ? res->s : "");
	printf(",\"lost\":%d,\"calls\":%d,\"e\":%d}\n", lost, x.calls, r < 0 && g_errno != 0);
out:
	while (x.vals != NULL) {
		w = x.vals;
		x.vals = w->next;
		free(w->s);
		free(w);
	}
	ec_pnode_free(p);
	ec_strvec_free(v);
}

/* X node what child [child]: configure an expr node */
static void do_config(struct cmd *c)
{
	struct ec_node *n = g_get(arg_int(c->w[1]));
	struct ec_node *k = ec_node_clone(g_get(arg_int(c->w[3])));
	const char *w = c->w[2];
	int r;

	if (!strcmp(w, "val"))
		r = ec_node_expr_set_val_node(n, k);
	else if (!strcmp(w, "bin"))
		r = ec_node_expr_add_bin_op(n, k);
	else if (!strcmp(w, "pre"))
		r = ec_node_expr_add_pre_op(n, k);
	else if (!strcmp(w, "post"))
		r = ec_node_expr_add_post_op(n, k);
	else
		r = ec_node_expr_add_parenthesis(n, k,
				ec_node_clone(g_get(arg_int(c->w[4]))));
	g_errno = errno;
	if (r < 0)
		printf("{\"o\":\"adderr\"}\n");
}

int area_expr(struct cmd *c)
{
	if (!strcmp(c->w[0], "X"))
		do_config(c);
	else if (!strcmp(c->w[0], "EV"))
		do_eval(c);
	else
		return 0;
	return 1;
}
