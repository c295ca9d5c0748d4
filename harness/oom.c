/* every allocation that an operation makes fails in turn */
#include "drv.h"

#define MAXRES 64

static FILE *saved;
static char *text;
static size_t text_len;

/* what is written on stdout goes to a buffer */
static void capture(void)
{
	saved = stdout;
	stdout = open_memstream(&text, &text_len);
	if (stdout == NULL)
		exit(5);
}

static char *captured(void)
{
	char *s;

	fclose(stdout);
	stdout = saved;
	s = text;
	text = NULL;
	s[strcspn(s, "\n")] = 0;
	return s;
}

static char *res[MAXRES];
static int nres;

static void keep(char *s)
{
	int i;

	for (i = 0; i < nres; i++)
		if (!strcmp(res[i], s))
			break;
	if (i < nres || nres == MAXRES) {
		free(s);
		return;
	}
	res[nres++] = s;
}

static void forget(void)
{
	while (nres > 0)
		free(res[--nres]);
}

static int run(struct cmd *c)
{
	return area_grammar(c) || area_expr(c);
}

static char *shape(void)
{
	capture();
	j_live();
	return captured();
}

/* OQ max offset request...: the answers when an allocation fails, each one once */
static void oom_query(struct cmd *c)
{
	struct cmd d = { c->n - 3, c->w + 3 };
	long max = arg_int(c->w[1]), off = arg_int(c->w[2]), total, k, step = 1, base, leak = 0, pts = 0, mute = 0;
	char *first, *s, *before = shape(), *after;
	int i;

	g_drop_last();
	base = live_allocs;
	alloc_calls = 0;
	capture();
	fail_at = 0;
	run(&d);
	total = alloc_calls;
	first = captured();
	g_drop_last();
	if (live_allocs != base)
		leak = live_allocs - base;
	if (total > max)
		step = total / max + 1;
	for (k = 1 + off % step; k <= total; k += step) {
		base = live_allocs;
		fail_fired = 0;
		g_errno = -1;
		fail_at = k;
		capture();
		run(&d);
		fail_at = 0;
		s = captured();
		g_drop_last();
		pts++;
		if (strcmp(s, first) != 0 && g_errno == 0)
			mute++;
		if (live_allocs != base)
			leak = live_allocs - base;
		keep(s);
	}
	after = shape();
	printf("{\"o\":\"oq\",\"pts\":%ld,\"leak\":%ld,\"mute\":%ld,\"same\":%d,\"first\":%s,\"all\":[", pts, leak, mute,
		!strcmp(before, after), first);
	for (i = 0; i < nres; i++)
		printf("%s%s", i ? "," : "", res[i]);
	printf("]}\n");
	forget();
	free(first);
	free(before);
	free(after);
}

/* OA max operation...: attempts until one succeeds; the others must change nothing */
static void oom_change(struct cmd *c)
{
	struct cmd d = { c->n - 2, c->w + 2 };
	long max = arg_int(c->w[1]), k, step = 1, base, leak = 0, pts = 0, mute = 0, ok = 0;
	char *before = shape(), *after, *s;
	int same = 1;

	for (k = 1; !ok; k += step) {
		if (pts > max)
			step = 1 + pts / 8;
		base = live_allocs;
		fail_fired = 0;
		g_errno = 0;
		fail_at = k;
		errno = 0;
		capture();
		run(&d);
		if (fail_at > 0)
			ok = 1; /* it did not need more */
		fail_at = 0;
		s = captured();
		if (s[0] == 0)
			ok = 1;
		else {
			if (g_errno == 0)
				mute++;
			pts++;
			if (live_allocs != base)
				leak = live_allocs - base;
			after = shape();
			if (strcmp(after, before))
				same = 0;
			free(after);
		}
		if (ok)
			printf("{\"o\":\"oa\",\"pts\":%ld,\"leak\":%ld,\"mute\":%ld,\"same\":%d,\"ok\":%d}\n", pts, leak, mute, same,
				s[0] == 0);
		free(s);
	}
	free(before);
}

/* what a node answers to a few requests */
static void answers(const struct ec_node *n)
{
	static const char *const in[][2] = { { NULL, NULL }, { "a", NULL }, { "b", NULL }, { "foo", NULL }, { "a", "b" }, { "b", "a" },
		{ "", NULL }, { "a", "" }, { "1", NULL } };
	size_t i;

	printf(",\"a\":[");
	for (i = 0; i < sizeof(in) / sizeof(in[0]); i++) {
		struct ec_strvec *v = ec_strvec();
		struct ec_pnode *p;
		struct ec_comp *c;

		if (in[i][0] != NULL)
			ec_strvec_add(v, in[i][0]);
		if (in[i][1] != NULL)
			ec_strvec_add(v, in[i][1]);
		p = ec_parse_strvec(n, v);
		c = ec_strvec_len(v) ? ec_complete_strvec(n, v) : NULL;
		printf("%s%d,%d", i ? "," : "", p == NULL ? -2 : ec_pnode_matches(p) ? (int)ec_pnode_len(p) : -1,
			c == NULL ? -1 : (int)ec_comp_count(c, EC_COMP_ALL));
		ec_pnode_free(p);
		ec_comp_free(c);
		ec_strvec_free(v);
	}
	printf("]");
}

/* ON max idx type id args...: creation of a node */
static void oom_node(struct cmd *c)
{
	struct cmd d = { c->n - 1, c->w + 1 };
	long max = arg_int(c->w[1]), k, step = 1, base, leak = 0, pts = 0, mute = 0, ok = 0, i;
	struct ec_node *n = NULL;

	for (k = 1; !ok; k += step) {
		if (pts > max)
			step = 1 + pts / 8;
		base = live_allocs;
		fail_fired = 0;
		errno = 0;
		fail_at = k;
		n = g_make(&d);
		if (fail_at > 0)
			ok = 1;
		fail_at = 0;
		if (n == NULL && errno == 0)
			mute++;
		if (n != NULL || ok) { /* as if nothing failed? */
			capture();
			if (n == NULL)
				printf("\"null\"");
			else {
				printf("{\"t\":");
				j_str(ec_node_get_type_name(n));
				printf(",\"i\":");
				j_str(ec_node_id(n));
				printf(",\"k\":%zu,\"c\":", ec_node_get_children_count(n));
				j_cfg(ec_node_get_config(n));
				answers(n);
				printf("}");
			}
			keep(captured());
		}
		if (!ok) {
			pts++;
			ec_node_free(n);
			if (live_allocs != base)
				leak = live_allocs - base;
		}
	}
	g_set(arg_int(c->w[2]), n);
	printf("{\"o\":\"on\",\"pts\":%ld,\"leak\":%ld,\"mute\":%ld,\"ok\":%d,\"all\":[", pts, leak, mute, n != NULL);
	for (i = 0; i < nres; i++)
		printf("%s%s", i ? "," : "", res[i]);
	printf("]}\n");
	forget();
}

int area_oom(struct cmd *c)
{
	if (!strcmp(c->w[0], "OQ"))
		oom_query(c);
	else if (!strcmp(c->w[0], "OA"))
		oom_change(c);
	else if (!strcmp(c->w[0], "ON"))
		oom_node(c);
	else
		return 0;
	return 1;
}
