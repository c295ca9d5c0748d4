/* completion lists: a node type whose completion follows a script */
#include "drv.h"

#define MAXREG 4
#define MAXNODE 6
#define MAXATTR 3

static struct ec_node *snode[MAXNODE + 1];
static struct ec_comp *regs[MAXREG + 1];
static char **ops;
static int nops, pc;
static struct ec_strvec *svec;

static int field(const char *op, int k, char *buf, size_t len)
{
	size_t n;

	while (k-- > 0) {
		op = strchr(op, ':');
		if (op == NULL)
			return -1;
		op++;
	}
	n = strcspn(op, ":");
	if (n >= len)
		abort();
	memcpy(buf, op, n);
	buf[n] = 0;
	return 0;
}

static long fint(const char *op, int k)
{
	char b[32];
	return field(op, k, b, sizeof(b)) < 0 ? 0 : atol(b);
}

static char *fstr(const char *op, int k)
{
	char b[256];
	return field(op, k, b, sizeof(b)) < 0 ? NULL : arg_str(b);
}

static int snode_idx(const struct ec_node *n)
{
	int i;
	for (i = 1; i <= MAXNODE; i++)
		if (snode[i] == n)
			return i;
	return 0;
}

static void j_nstr(const char *s)
{
	if (s == NULL)
		printf("\"-\"");
	else
		j_str(s);
}

static void path(const struct ec_pnode *p)
{
	if (ec_pnode_get_parent(p) != NULL) {
		path(ec_pnode_get_parent(p));
		putchar(',');
	}
	printf("%d", snode_idx(ec_pnode_get_node(p)));
}

static void dump(const struct ec_comp *comp)
{
	const struct ec_comp_group *grp = NULL;
	struct ec_comp_item *it, *all[4096];
	int n = 0, i, m, k;

	if (comp == NULL) {
		printf("{\"u\":0,\"g\":[],\"tc\":[],\"ty\":[],\"a\":[]}");
		return;
	}
	printf("{\"u\":1,\"g\":[");
	for (it = ec_comp_iter_first(comp, EC_COMP_ALL); it != NULL;
	     it = ec_comp_iter_next(it, EC_COMP_ALL)) {
		if (n >= 4096) {
			fprintf(stderr, "RUNAWAY iteration\n");
			abort();
		}
		all[n++] = it;
		if (ec_comp_item_get_grp(it) != grp) {
			if (grp != NULL)
				printf("]},");
			grp = ec_comp_item_get_grp(it);
			printf("{\"n\":%d,\"p\":[", snode_idx(ec_comp_group_get_node(grp)));
			path(ec_comp_group_get_pstate(grp));
			printf("],\"it\":[");
		} else
			putchar(',');
		if (ec_comp_item_get_node(it) != ec_comp_group_get_node(grp)) {
			fprintf(stderr, "BROKEN item and group nodes differ\n");
			abort();
		}
		printf("{\"t\":%d,\"s\":", ec_comp_item_get_type(it));
		j_nstr(ec_comp_item_get_str(it));
		printf(",\"c\":");
		j_nstr(ec_comp_item_get_completion(it));
		printf(",\"d\":");
		j_nstr(ec_comp_item_get_display(it));
		printf("}");
	}
	if (grp != NULL)
		printf("]}");
	printf("],\"tc\":[");
	for (m = 0; m <= 7; m++)
		printf("%s%zu", m ? "," : "", ec_comp_count(comp, m));
	printf("],\"ty\":[");
	for (m = 1; m <= 7; m++) {
		printf("%s[", m > 1 ? "," : "");
		k = 0;
		for (it = ec_comp_iter_first(comp, m); it != NULL;
		     it = ec_comp_iter_next(it, m)) {
			for (i = 0; i < n && all[i] != it; i++)
				;
			if (k > n) {
				fprintf(stderr, "RUNAWAY iteration\n");
				abort();
			}
			printf("%s%d", k++ ? "," : "", i + 1);
		}
		printf("]");
	}
	printf("],\"a\":["); /* its attributes */
	for (m = 1, k = 0; m <= MAXATTR; m++) {
		char key[8];

		snprintf(key, sizeof(key), "k%d", m);
		if (ec_dict_has_key(ec_comp_get_attrs(comp), key) &&
				!strcmp(ec_dict_get(ec_comp_get_attrs(comp), key), key))
			printf("%s%d", k++ ? "," : "", m);
	}
	printf("]}");
}

static void show(int r, struct ec_comp *comp)
{
	int i;

	fail_at = 0;
	printf("{\"r\":%d,\"f\":%ld,\"e\":%d,\"cg\":%d,\"cur\":", r, fail_fired, errno != 0,
		comp != NULL && ec_comp_get_cur_group(comp) != NULL);
	dump(comp);
	printf(",\"regs\":[");
	for (i = 1; i <= MAXREG; i++) {
		if (i > 1)
			putchar(',');
		dump(regs[i]);
	}
	printf("]}\n");
}

static struct ec_comp_item *nth(struct ec_comp *comp, int k)
{
	struct ec_comp_item *it = ec_comp_iter_first(comp, EC_COMP_ALL);

	while (it != NULL && --k > 0)
		it = ec_comp_iter_next(it, EC_COMP_ALL);
	return it;
}

static int run(const struct ec_node *node, struct ec_comp *comp)
{
	int r;

	while (pc < nops) {
		char *op = ops[pc++], *a, *b;

		fail_fired = 0;
		errno = 0;
		if (op[0] == '!') {     /* !n:op: fail the nth allocation */
			fail_at = atol(op + 1);
			op = strchr(op, ':') + 1;
		}
		if (!strncmp(op, "leave", 5))
			return 0;
		if (!strncmp(op, "abort", 5)) {
			errno = EPROTO;
			return -1;
		}
		if (!strncmp(op, "enter:", 6)) {
			r = ec_complete_child(snode[fint(op, 1)], comp, svec);
			show(r, comp);
		} else if (!strncmp(op, "sub:", 4)) {
			struct ec_comp *c = ec_complete_strvec(snode[fint(op, 2)], svec);
			regs[fint(op, 1)] = c;
			show(c != NULL ? 0 : -1, comp);
		} else if (!strncmp(op, "add:", 4)) {
			a = fstr(op, 2);
			b = fstr(op, 3);
			r = ec_comp_add_item(comp, node, fint(op, 1), a, b) != NULL ? 0 : -1;
			free(a);
			free(b);
			show(r, comp);
		} else if (!strncmp(op, "set:", 4)) {
			struct ec_comp_item *it = nth(comp, fint(op, 2));
			a = fstr(op, 3);
			r = fint(op, 1) == 0 ? ec_comp_item_set_str(it, a) :
				fint(op, 1) == 1 ? ec_comp_item_set_completion(it, a) :
				ec_comp_item_set_display(it, a);
			free(a);
			show(r, comp);
		} else if (!strncmp(op, "merge:", 6)) {
			int x = fint(op, 1), y = fint(op, 2);
			if (regs[y] == NULL || (x > 0 && regs[x] == NULL)) {
				r = -3;
			} else {
				r = ec_comp_merge(x == 0 ? comp : regs[x], regs[y]);
				regs[y] = NULL;
			}
			show(r, comp);
		} else if (!strncmp(op, "attr:", 5)) {
			char key[8], *v;

			snprintf(key, sizeof(key), "k%d", (int)fint(op, 1));
			v = ec_strdup(key);
			r = v == NULL ? -1 : ec_dict_set(ec_comp_get_attrs(comp), key, v, ec_free_func);
			show(r, comp);
		} else if (!strncmp(op, "free:", 5)) {
			ec_comp_free(regs[fint(op, 1)]);
			regs[fint(op, 1)] = NULL;
			show(0, comp);
		} else {
			fprintf(stderr, "bad op %s\n", op);
			exit(4);
		}
	}
	return 0;
}

static int script_complete(const struct ec_node *node, struct ec_comp *comp,
		const struct ec_strvec *v)
{
	(void)v;
	show(0, comp);          /* answer of enter and sub */
	return run(node, comp);
}

static struct ec_node_type script_type = {
	.name = "script",
	.complete = script_complete,
};

static int started;

int area_comp(struct cmd *c)
{
	int i;
	char id[8];

	if (strcmp(c->w[0], "CL"))
		return 0;
	if (!started && ec_node_type_register(&script_type, 0) < 0)
		abort();
	started = 1;
	for (i = 1; i <= MAXNODE; i++) {
		snprintf(id, sizeof(id), "s%d", i);
		snode[i] = ec_node("script", id);
	}
	svec = ec_strvec();
	ec_strvec_add(svec, "x");
	ops = c->w + 1;
	nops = c->n - 1;
	pc = 0;
	run(NULL, NULL);
	for (i = 1; i <= MAXREG; i++) {
		ec_comp_free(regs[i]);
		regs[i] = NULL;
	}
	for (i = 1; i <= MAXNODE; i++)
		ec_node_free(snode[i]);
	ec_strvec_free(svec);
	return 1;
}
