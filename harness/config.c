/* Configurations: containers, schemas, and the configuration of nodes. */
#include "drv.h"
#include <sys/queue.h>

#define NREG 4
static struct ec_config *reg[NREG + 1];

void j_cfg(const struct ec_config *v)
{
	struct ec_dict_elt_ref *it;
	struct ec_config *e;
	int n = 0;

	if (v == NULL) {
		printf("{\"t\":\"nil\",\"s\":\"\",\"k\":[]}");
		return;
	}
	switch (ec_config_get_type(v)) {
	case EC_CONFIG_TYPE_BOOL:
		printf("{\"t\":\"b\",\"s\":\"%d\",\"k\":[]}", v->boolean);
		break;
	case EC_CONFIG_TYPE_INT64:
		printf("{\"t\":\"i\",\"s\":\"%" PRId64 "\",\"k\":[]}", v->i64);
		break;
	case EC_CONFIG_TYPE_UINT64:
		printf("{\"t\":\"u\",\"s\":\"%" PRIu64 "\",\"k\":[]}", v->u64);
		break;
	case EC_CONFIG_TYPE_STRING:
		printf("{\"t\":\"s\",\"s\":");
		j_str(v->string);
		printf(",\"k\":[]}");
		break;
	case EC_CONFIG_TYPE_NODE:
		printf("{\"t\":\"n\",\"s\":\"%d\",\"k\":[]}", g_idx(v->node));
		break;
	case EC_CONFIG_TYPE_LIST:
		printf("{\"t\":\"l\",\"s\":\"\",\"k\":[");
		for (e = ec_config_list_first((struct ec_config *)v); e != NULL;
		     e = ec_config_list_next((struct ec_config *)v, e)) {
			printf("%s{\"k\":\"\",\"v\":", n++ ? "," : "");
			j_cfg(e);
			printf("}");
		}
		printf("]}");
		if (ec_config_count(v) != n) {
			fprintf(stderr, "BROKEN count of a list\n");
			abort();
		}
		break;
	case EC_CONFIG_TYPE_DICT:
		printf("{\"t\":\"d\",\"s\":\"\",\"k\":[");
		for (it = ec_dict_iter(v->dict); it != NULL;
		     it = ec_dict_iter_next(it)) {
			printf("%s{\"k\":", n++ ? "," : "");
			j_str(ec_dict_iter_get_key(it));
			printf(",\"v\":");
			e = ec_config_dict_get(v, ec_dict_iter_get_key(it));
			if (e != ec_dict_iter_get_val(it)) {
				fprintf(stderr, "BROKEN dictionary\n");
				abort();
			}
			j_cfg(e);
			printf("}");
		}
		printf("]}");
		break;
	default:
		printf("{\"t\":\"?\",\"s\":\"\",\"k\":[]}");
	}
}

/* a literal: words at *i. d:N (xkey value)*N, l:N value*N, b:0 i:1 u:1 s:x61 n:2 */
static struct ec_config *literal(struct cmd *c, int *i)
{
	const char *w = c->w[(*i)++], *a = w + 2;
	struct ec_config *v = NULL;
	char *s;
	long n;

	switch (w[0]) {
	case 'b': v = ec_config_bool(a[0] == '1'); break;
	case 'i': v = ec_config_i64(strtoll(a, NULL, 10)); break;
	case 'u': v = ec_config_u64(strtoull(a, NULL, 10)); break;
	case 's':
		s = arg_str(a);
		v = ec_config_string(s);
		free(s);
		break;
	case 'n': v = ec_config_node(ec_node_clone(g_get(atoi(a)))); break;
	case 'l':
		v = ec_config_list();
		for (n = atoi(a); n > 0; n--)
			if (ec_config_list_add(v, literal(c, i)) < 0)
				abort();
		break;
	case 'd':
		v = ec_config_dict();
		for (n = atoi(a); n > 0; n--) {
			s = arg_str(c->w[(*i)++]);
			if (ec_config_dict_set(v, s, literal(c, i)) < 0)
				abort();
			free(s);
		}
		break;
	}
	if (v == NULL) {
		fprintf(stderr, "cannot build the literal %s\n", w);
		abort();
	}
	return v;
}

struct ec_config *arg_cfg(struct cmd *c, int *i) { return literal(c, i); }

/* a schema: S:N (key type sub)*N, sub is "0" or a schema; freed at exit */
static struct ec_config_schema *schema(struct cmd *c, int *i)
{
	const char *w = c->w[(*i)++];
	struct ec_config_schema *s;
	int n, k;

	if (w[0] != 'S')
		return NULL;
	n = atoi(w + 2);
	s = calloc(n + 1, sizeof(*s));
	for (k = 0; k < n; k++) {
		s[k].key = arg_str(c->w[(*i)++]);
		s[k].desc = "d";
		s[k].type = atoi(c->w[(*i)++]);
		s[k].subschema = schema(c, i);
	}
	return s;
}

static void schema_free(struct ec_config_schema *s)
{
	int k;

	for (k = 0; s != NULL && s[k].type != 0; k++) {
		free((char *)s[k].key);
		schema_free((struct ec_config_schema *)s[k].subschema);
	}
	free(s);
}

struct ec_config_schema *arg_schema(struct cmd *c, int *i) { return schema(c, i); }
void arg_schema_free(struct ec_config_schema *s) { schema_free(s); }

/* "1/#2/xkey": a value in a register */
static struct ec_config *at(const char *path)
{
	struct ec_config *v = reg[path[0] - '0'], *e;
	char *p = strdup(path + 1), *save, *w, *k;
	int n;

	for (w = strtok_r(p, "/", &save); w != NULL && v != NULL;
	     w = strtok_r(NULL, "/", &save)) {
		if (w[0] == '#') {
			n = atoi(w + 1);
			for (e = ec_config_list_first(v); e != NULL && n > 1; n--)
				e = ec_config_list_next(v, e);
			v = e;
		} else {
			k = arg_str(w);
			v = ec_config_dict_get(v, k);
			free(k);
		}
	}
	free(p);
	return v;
}

static void j_schema(const struct ec_config_schema *s)
{
	const struct ec_config_schema *e;
	int k;

	/* through the accessors */
	printf("[");
	for (k = 0; s != NULL && s[k].type != 0; k++) {
		e = s[k].key ? ec_config_schema_lookup(s, s[k].key) : &s[k];
		printf("%s%d", k ? "," : "", e ? (int)(e - s) + 1 : 0);
		if (e != NULL && (ec_config_schema_type(e) != e->type ||
				ec_config_schema_sub(e) != e->subschema))
			printf(",-1");
	}
	printf("]");
}

static void do_cf(struct cmd *c)
{
	long fail = arg_int(c->w[1]);
	const char *op = c->w[2];
	char *key = NULL;
	struct ec_config *a, *b, *v = NULL;
	struct ec_config_schema *s = NULL;
	int r = 0, i, e, skip = 0, n;

	errno = 0;
	fail_fired = 0;
	if (!strcmp(op, "lit")) { /* lit dst literal */
		n = c->w[3][0] - '0';
		i = 4;
		if (reg[n] != NULL)
			skip = 1;
		else
			reg[n] = literal(c, &i);
	} else if (!strcmp(op, "new")) { /* new dst literal, with failures */
		n = c->w[3][0] - '0';
		i = 4;
		if (reg[n] != NULL)
			skip = 1;
		else {
			const char *w = c->w[4], *x = w + 2;
			char *str = w[0] == 's' ? arg_str(x) : NULL;
			struct ec_node *nd = w[0] == 'n' ?
				ec_node_clone(g_get(atoi(x))) : NULL;
			fail_at = fail;
			switch (w[0]) {
			case 'b': v = ec_config_bool(x[0] == '1'); break;
			case 'i': v = ec_config_i64(strtoll(x, NULL, 10)); break;
			case 'u': v = ec_config_u64(strtoull(x, NULL, 10)); break;
			case 's': v = ec_config_string(str); break;
			case 'n': v = ec_config_node(nd); break;
			case 'l': v = ec_config_list(); break;
			case 'd': v = ec_config_dict(); break;
			}
			e = errno;
			fail_at = 0;
			free(str);
			reg[n] = v;
			r = v == NULL ? -1 : 0;
			errno = e;
		}
	} else if (!strcmp(op, "set") || !strcmp(op, "del")) {
		/* set path key reg, del path key */
		a = at(c->w[3]);
		key = arg_str(c->w[4]);
		if (op[0] == 's') {
			n = c->w[5][0] - '0';
			b = reg[n];
			reg[n] = NULL;
			errno = 0;
			fail_at = fail;
			r = ec_config_dict_set(a, key, b);
		} else {
			errno = 0;
			fail_at = fail;
			r = ec_config_dict_del(a, key);
		}
	} else if (!strcmp(op, "add")) { /* add path reg */
		a = at(c->w[3]);
		n = c->w[4][0] - '0';
		b = reg[n];
		reg[n] = NULL;
		errno = 0;
		fail_at = fail;
		r = ec_config_list_add(a, b);
	} else if (!strcmp(op, "rm")) { /* rm path index */
		a = at(c->w[3]);
		n = arg_int(c->w[4]);
		b = a != NULL && a->type == EC_CONFIG_TYPE_LIST ?
			ec_config_list_first(a) : NULL;
		for (; b != NULL && n > 1; n--)
			b = ec_config_list_next(a, b);
		if (b == NULL && a != NULL && a->type == EC_CONFIG_TYPE_LIST)
			skip = 1;
		else {
			errno = 0;
			fail_at = fail;
			r = ec_config_list_del(a, b);
		}
	} else if (!strcmp(op, "dup")) { /* dup path dst */
		a = at(c->w[3]);
		n = c->w[4][0] - '0';
		if (reg[n] != NULL)
			skip = 1;
		else {
			errno = 0;
			fail_at = fail;
			reg[n] = ec_config_dup(a);
			r = reg[n] == NULL ? -1 : 0;
		}
	} else if (!strcmp(op, "cmp")) { /* cmp path path */
		a = at(c->w[3]);
		b = at(c->w[4]);
		errno = 0;
		r = ec_config_cmp(a, b);
		if (r != 0)
			r = -1;
	} else if (!strcmp(op, "cnt")) { /* cnt path */
		a = at(c->w[3]);
		if (a == NULL)
			skip = 1;
		else {
			errno = 0;
			r = ec_config_count(a);
		}
	} else if (!strcmp(op, "get")) { /* get path key */
		a = at(c->w[3]);
		key = arg_str(c->w[4]);
		errno = 0;
		r = ec_config_dict_get(a, key) == NULL ? -1 : 0;
	} else if (!strcmp(op, "val")) { /* val path schema */
		a = at(c->w[3]);
		i = 4;
		s = schema(c, &i);
		if (a == NULL)
			skip = 1;
		else {
			errno = 0;
			fail_at = fail;
			r = ec_config_validate(a, s);
		}
	} else if (!strcmp(op, "sch")) { /* sch schema */
		i = 3;
		s = schema(c, &i);
		errno = 0;
		r = ec_config_schema_validate(s);
	} else if (!strcmp(op, "rsv")) { /* rsv key */
		key = arg_str(c->w[3]);
		r = ec_config_key_is_reserved(key);
	} else if (!strcmp(op, "free")) {
		n = c->w[3][0] - '0';
		ec_config_free(reg[n]);
		reg[n] = NULL;
	}
	e = errno;
	fail_at = 0;
	printf("{\"o\":\"cf\",\"r\":%d,\"e\":%d,\"f\":%ld,\"x\":", skip ? -9 : r, e != 0, fail_fired);
	j_schema(!strcmp(op, "sch") && r < 0 ? NULL : s);
	printf(",\"regs\":[");
	for (i = 1; i <= NREG; i++) {
		if (i > 1)
			putchar(',');
		j_cfg(reg[i]);
	}
	printf("]}\n");
	free(key);
	schema_free(s);
}

/* CN fail op node args: change the configuration of a node */
static int setter(const char *as, struct ec_node *n, struct ec_node *k)
{
	struct ec_node *k2;
	uint64_t u;
	int64_t v;

	if (!strcmp(as, "bypass"))
		return ec_node_bypass_set_child(n, k);
	if (!strcmp(as, "option"))
		return ec_node_option_set_child(n, k);
	if (!strcmp(as, "once"))
		return ec_node_once_set_child(n, k);
	if (!strcmp(as, "many"))
		return ec_node_many_set_params(n, k, 0, 0);
	if (!strcmp(as, "seq"))
		return ec_node_seq_add(n, k);
	if (!strcmp(as, "or"))
		return ec_node_or_add(n, k);
	if (!strcmp(as, "subset"))
		return ec_node_subset_add(n, k);
	if (!strcmp(as, "expr_val"))
		return ec_node_expr_set_val_node(n, k);
	if (!strcmp(as, "expr_bin"))
		return ec_node_expr_add_bin_op(n, k);
	if (!strcmp(as, "expr_pre"))
		return ec_node_expr_add_pre_op(n, k);
	if (!strcmp(as, "expr_post"))
		return ec_node_expr_add_post_op(n, k);
	if (!strcmp(as, "expr_open")) {
		k2 = ec_node("empty", EC_NO_ID);
		return ec_node_expr_add_parenthesis(n, k, k2);
	}
	if (!strcmp(as, "expr_close")) {
		k2 = ec_node("empty", EC_NO_ID);
		return ec_node_expr_add_parenthesis(n, k2, k);
	}
	/* these take no child */
	if (k != NULL)
		ec_node_free(k);
	if (!strcmp(as, "str"))
		return ec_node_str_set_str(n, "a");
	if (!strcmp(as, "str_null"))
		return ec_node_str_set_str(n, NULL);
	if (!strcmp(as, "re"))
		return ec_node_re_set_regexp(n, "a");
	if (!strcmp(as, "re_null"))
		return ec_node_re_set_regexp(n, NULL);
	if (!strcmp(as, "pat"))
		return ec_node_re_lex_add(n, "a", 1, NULL);
	if (!strcmp(as, "int"))
		return ec_node_int_getval(n, "1", &v);
	if (!strcmp(as, "uint"))
		return ec_node_uint_getval(n, "1", &u);
	abort();
}

static void do_cn(struct cmd *c)
{
	long fail = arg_int(c->w[1]);
	const char *op = c->w[2];
	struct ec_node *n = g_get(arg_int(c->w[3])), *k = NULL;
	struct ec_config *v = NULL;
	const char *t = ec_node_get_type_name(n);
	char *s = NULL, *s2 = NULL;
	int i = 4, r = -9, e, sep = 0, over = 0;
	unsigned int refs;
	size_t j, nk;

	if (!strcmp(op, "conf"))
		v = literal(c, &i);
	else if (c->n > 4 && c->w[4][0] == 'x')
		s = arg_str(c->w[4]);
	else if (c->n > 4 && arg_int(c->w[4]) != 0)
		k = ec_node_clone(g_get(arg_int(c->w[4])));
	if (!strcmp(op, "pat"))
		s2 = arg_str(c->w[6]);
	errno = 0;
	fail_fired = 0;
	fail_at = fail;
	if (!strcmp(op, "conf"))
		r = ec_node_set_config(n, v);
	else if (!strcmp(op, "str")) /* str node string */
		r = ec_node_str_set_str(n, s);
	else if (!strcmp(op, "re")) /* re node pattern */
		r = ec_node_re_set_regexp(n, s);
	else if (!strcmp(op, "pat")) /* pat node pattern keep attr */
		r = ec_node_re_lex_add(n, s, arg_int(c->w[5]), s2);
	else if (!strcmp(op, "many")) /* many node child min max */
		r = ec_node_many_set_params(n, k, arg_int(c->w[5]), arg_int(c->w[6]));
	else if (!strcmp(op, "child")) { /* child node child */
		if (!strcmp(t, "bypass"))
			r = ec_node_bypass_set_child(n, k);
		else if (!strcmp(t, "option"))
			r = ec_node_option_set_child(n, k);
		else if (!strcmp(t, "once"))
			r = ec_node_once_set_child(n, k);
	} else if (!strcmp(op, "w")) { /* w node child setter: the setter of some type */
		r = setter(c->w[5], n, k);
	} else if (!strcmp(op, "add")) { /* add node child */
		if (!strcmp(t, "seq"))
			r = ec_node_seq_add(n, k);
		else if (!strcmp(t, "or"))
			r = ec_node_or_add(n, k);
		else if (!strcmp(t, "subset"))
			r = ec_node_subset_add(n, k);
	}
	e = errno;
	fail_at = 0;
	if (r == -9 && k != NULL)
		ec_node_free(k);
	printf("{\"o\":\"cn\",\"r\":%d,\"e\":%d,\"f\":%ld,\"cf\":", r, e != 0, fail_fired);
	j_cfg(ec_node_get_config(n));
	printf(",\"kids\":[");
	nk = ec_node_get_children_count(n);
	for (j = 0; j < nk; j++) {
		if (ec_node_get_child(n, j, &k, &refs) < 0)
			abort();
		if (g_idx(k) != 0)
			printf("%s%d", sep++ ? "," : "", g_idx(k));
	}
	/* there is nothing after the last child */
	for (j = nk; j < nk + 3; j++) {
		k = NULL;
		if (ec_node_get_child(n, j, &k, &refs) >= 0 && k != NULL)
			over++;
	}
	printf("],\"over\":%d}\n", over);
	free(s);
	free(s2);
}

int area_config(struct cmd *c)
{
	if (!strcmp(c->w[0], "CF"))
		do_cf(c);
	else if (!strcmp(c->w[0], "CN"))
		do_cn(c);
	else
		return 0;
	return 1;
}

void area_config_reset(void)
{
	int i;

	for (i = 1; i <= NREG; i++) {
		ec_config_free(reg[i]);
		reg[i] = NULL;
	}
}
