/* answers that are kept while other requests are made */
#include "drv.h"

#define NKEEP 4
static struct {
	struct ec_pnode *p;
	struct ec_comp *c;
	int kind, err;
} reg[NKEEP + 1];

static void drop(int r)
{
	ec_pnode_free(reg[r].p);
	ec_comp_free(reg[r].c);
	reg[r].p = NULL;
	reg[r].c = NULL;
	reg[r].kind = 0;
}

static void view(int r, int same)
{
	g_errno = reg[r].err;
	printf("{\"o\":\"keep\",\"same\":%d,\"v\":", same);
	if (reg[r].kind == 'P')
		j_parse(reg[r].p);
	else if (reg[r].kind == 'L')
		j_completion(reg[r].c);
	else
		printf("{\"o\":\"none\"}");
	printf("}\n");
}

static int same_vec(const struct ec_strvec *a, const struct ec_strvec *b)
{
	size_t i;

	if (ec_strvec_len(a) != ec_strvec_len(b))
		return 0;
	for (i = 0; i < ec_strvec_len(a); i++) {
		const struct ec_dict *d = ec_strvec_get_attrs(a, i);

		if (strcmp(ec_strvec_val(a, i), ec_strvec_val(b, i)))
			return 0;
		if (d != NULL && ec_dict_len(d) != 0)
			return 0;
	}
	return 1;
}

int area_keep(struct cmd *c)
{
	struct ec_strvec *v, *w;
	int r, same;

	if (c->w[0][0] != 'K' || c->n < 2)
		return 0;
	r = arg_int(c->w[1]);
	switch (c->w[0][1]) {
	case 'P': /* KP register node words... */
	case 'L':
		v = arg_strvec(c, 3);
		w = arg_strvec(c, 3);
		drop(r);
		reg[r].kind = c->w[0][1];
		errno = 0;
		if (reg[r].kind == 'P')
			reg[r].p = ec_parse_strvec(g_get(arg_int(c->w[2])), v);
		else
			reg[r].c = ec_complete_strvec(g_get(arg_int(c->w[2])), v);
		reg[r].err = errno;
		/* what was given is left as it was, and is not needed any more */
		same = same_vec(v, w);
		ec_strvec_free(v);
		ec_strvec_free(w);
		view(r, same);
		return 1;
	case 'V': /* KV register */
		view(r, 1);
		return 1;
	case 'D': /* KD register from: a copy of a parse tree */
		drop(r);
		if (reg[arg_int(c->w[2])].p != NULL) {
			reg[r].p = ec_pnode_dup(reg[arg_int(c->w[2])].p);
			reg[r].kind = 'P';
		}
		view(r, 1);
		return 1;
	case 'F': /* KF register */
		drop(r);
		view(r, 1);
		return 1;
	case 'A': { /* KA node child: the grammar grows */
		struct ec_node *n = g_get(arg_int(c->w[1])), *k = ec_node_clone(g_get(arg_int(c->w[2])));
		const char *t = ec_node_get_type_name(n);
		int ret = !strcmp(t, "seq") ? ec_node_seq_add(n, k) : !strcmp(t, "or") ? ec_node_or_add(n, k) : ec_node_subset_add(n, k);

		printf("{\"o\":\"keep\",\"same\":%d,\"v\":{\"o\":\"none\"}}\n", ret == 0);
		return 1;
	}
	}
	return 0;
}

void area_keep_reset(void)
{
	int i;

	for (i = 0; i <= NKEEP; i++)
		drop(i);
}
