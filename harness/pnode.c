/* parse trees: histories of operations on a forest of nodes */
#include "drv.h"

#define MAXP 2000
static struct ec_pnode *pn[MAXP];       /* NULL when freed */
static int npn;
static int attr_live[MAXP], nattr;

static int pid(const struct ec_pnode *p)
{
	int i;

	if (p == NULL)
		return 0;
	for (i = 1; i <= npn; i++)
		if (pn[i] == p)
			return i;
	return -1;
}

static void attr_free(void *p)
{
	int i = (int)(intptr_t)p;

	if (attr_live[i] != 1) {
		fprintf(stderr, "BROKEN attribute freed twice\n");
		abort();
	}
	attr_live[i] = 2;
}

static void number(struct ec_pnode *p)
{
	struct ec_pnode *c;

	if (++npn >= MAXP)
		abort();
	pn[npn] = p;
	for (c = ec_pnode_get_first_child(p); c != NULL; c = ec_pnode_next(c))
		number(c);
}

static void forget(struct ec_pnode *p)
{
	struct ec_pnode *c;
	int i = pid(p);

	for (c = ec_pnode_get_first_child(p); c != NULL; c = ec_pnode_next(c))
		forget(c);
	pn[i] = NULL;
}

static void forget_kids(struct ec_pnode *p)
{
	struct ec_pnode *c;

	for (c = ec_pnode_get_first_child(p); c != NULL; c = ec_pnode_next(c))
		forget(c);
}

static void show(int r)
{
	const struct ec_strvec *v;
	struct ec_pnode *c;
	char key[16];
	size_t j;
	int i, k, sep = 0;

	fail_at = 0;
	printf("{\"r\":%d,\"f\":%ld,\"t\":[", r, fail_fired);
	for (i = 1; i <= npn; i++) {
		if (pn[i] == NULL)
			continue;
		printf("%s{\"id\":%d,\"n\":%d,\"par\":%d,\"root\":%d,\"first\":%d,\"last\":%d,\"next\":%d,\"k\":[",
			sep++ ? "," : "", i, g_idx(ec_pnode_get_node(pn[i])),
			pid(ec_pnode_get_parent(pn[i])), pid(ec_pnode_get_root(pn[i])),
			pid(ec_pnode_get_first_child(pn[i])), pid(ec_pnode_get_last_child(pn[i])),
			pid(ec_pnode_next(pn[i])));
		k = 0;
		EC_PNODE_FOREACH_CHILD(c, pn[i]) {
			if (k > npn) {
				fprintf(stderr, "RUNAWAY children\n");
				abort();
			}
			printf("%s%d", k++ ? "," : "", pid(c));
		}
		printf("],\"x\":%zu,\"len\":%zu,\"m\":[", ec_pnode_matches(pn[i]), ec_pnode_len(pn[i]));
		v = ec_pnode_get_strvec(pn[i]);
		for (j = 0; v != NULL && j < ec_strvec_len(v); j++) {
			if (j)
				putchar(',');
			j_str(ec_strvec_val(v, j));
		}
		printf("],\"a\":[");
		for (j = 0; j < 3; j++) {
			snprintf(key, sizeof(key), "k%zu", j);
			printf("%s%d", j ? "," : "",
				(int)(intptr_t)ec_dict_get(ec_pnode_get_attrs(pn[i]), key));
		}
		printf("]}");
	}
	printf("],\"live\":[");
	for (i = 1, sep = 0; i <= nattr; i++)
		if (attr_live[i] == 1)
			printf("%s%d", sep++ ? "," : "", i);
	printf("]}\n");
}

int area_pnode(struct cmd *c)
{
	const char *op;
	struct ec_pnode *p = NULL, *q;
	int r = 0;

	if (strcmp(c->w[0], "PT"))
		return 0;
	op = c->w[1];
	errno = 0;
	fail_fired = 0;
	if (strcmp(op, "new") && strcmp(op, "parse"))
		p = pn[arg_int(c->w[2])];
	if (!strcmp(op, "new")) {
		p = ec_pnode(arg_int(c->w[2]) ? g_get(arg_int(c->w[2])) : NULL);
		if (p != NULL)
			number(p);
		r = p == NULL ? -1 : 0;
	} else if (!strcmp(op, "parse")) {
		struct ec_strvec *v = arg_strvec(c, 3);
		p = ec_parse_strvec(g_get(arg_int(c->w[2])), v);
		if (p != NULL)
			number(p);
		r = p == NULL ? -1 : 0;
		ec_strvec_free(v);
	} else if (!strcmp(op, "link")) {
		ec_pnode_link_child(p, pn[arg_int(c->w[3])]);
	} else if (!strcmp(op, "unlink")) {
		ec_pnode_unlink_child(p);
	} else if (!strcmp(op, "free")) {
		forget(p);
		ec_pnode_free(p);
	} else if (!strcmp(op, "fc")) {
		forget_kids(p);
		ec_pnode_free_children(p);
	} else if (!strcmp(op, "dl")) {
		q = ec_pnode_get_last_child(p);
		if (q != NULL)
			forget(q);
		ec_pnode_del_last_child(p);
	} else if (!strcmp(op, "dup")) {
		/* all the tree is copied, the copy of this node is returned */
		q = ec_pnode_dup(p);
		if (q == NULL) {
			r = -1;
		} else {
			number(ec_pnode_get_root(q));
			r = pid(q);
		}
	} else if (!strcmp(op, "attr")) {
		char key[16];
		int a = arg_int(c->w[4]);
		snprintf(key, sizeof(key), "k%s", c->w[3]);
		attr_live[a] = 1;
		if (a > nattr)
			nattr = a;
		r = ec_dict_set(ec_pnode_get_attrs(p), key, (void *)(intptr_t)a, attr_free);
	} else if (!strcmp(op, "find")) {
		char *id = arg_str(c->w[3]);
		r = pid(ec_pnode_find(p, id));
		free(id);
	} else if (!strcmp(op, "next")) {
		char *id = arg_str(c->w[4]);
		q = arg_int(c->w[3]) ? pn[arg_int(c->w[3])] : NULL;
		r = pid(ec_pnode_find_next(p, q, id, arg_int(c->w[5])));
		free(id);
	} else if (!strcmp(op, "iter")) {
		r = pid(EC_PNODE_ITER_NEXT(p, pn[arg_int(c->w[3])], arg_int(c->w[4])));
	} else {
		return 0;
	}
	show(r);
	return 1;
}

void area_pnode_reset(void)
{
	int i;

	for (i = 1; i <= npn; i++)
		if (pn[i] != NULL && ec_pnode_get_parent(pn[i]) != NULL) {
			struct ec_pnode *root = ec_pnode_get_root(pn[i]);
			forget(root);
			ec_pnode_free(root);
		}
	for (i = 1; i <= npn; i++)
		if (pn[i] != NULL) {
			struct ec_pnode *p = pn[i];
			forget(p);
			ec_pnode_free(p);
		}
	for (i = 1; i <= nattr; i++) {
		if (attr_live[i] == 1)
			live_allocs += 1000000;
		attr_live[i] = 0;
	}
	npn = 0;
	nattr = 0;
}
