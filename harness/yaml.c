#include "drv.h"
#include <unistd.h>
#include <ecoli_yaml.h>

/* number the nodes: each one before those of its configuration, in order */
static void number(struct ec_node *n, int own);

static void walk(const struct ec_config *v, int own)
{
	struct ec_dict_elt_ref *it;
	struct ec_config *e;

	if (v == NULL)
		return;
	switch (ec_config_get_type(v)) {
	case EC_CONFIG_TYPE_NODE:
		number(v->node, own);
		break;
	case EC_CONFIG_TYPE_LIST:
		for (e = ec_config_list_first((struct ec_config *)v); e != NULL;
		     e = ec_config_list_next((struct ec_config *)v, e))
			walk(e, own);
		break;
	case EC_CONFIG_TYPE_DICT:
		for (it = ec_dict_iter(v->dict); it != NULL;
		     it = ec_dict_iter_next(it))
			walk(ec_dict_iter_get_val(it), own);
		break;
	default:
		break;
	}
}

static void number(struct ec_node *n, int own)
{
	if (g_idx(n) != 0)
		return;
	g_register(own ? ec_node_clone(n) : n, own);
	walk(ec_node_get_config(n), own);
}

static void j_attrs(const struct ec_dict *d)
{
	struct ec_dict_elt_ref *it;
	int n = 0;

	putchar('[');
	for (it = ec_dict_iter(d); it != NULL; it = ec_dict_iter_next(it)) {
		printf("%s{\"k\":", n++ ? "," : "");
		j_str(ec_dict_iter_get_key(it));
		printf(",\"v\":");
		j_str(ec_dict_iter_get_val(it));
		putchar('}');
	}
	putchar(']');
}

/* YI fail own text: import a document ("-": the file does not exist); own:
 * keep a reference to all the nodes */
static void do_import(struct cmd *c)
{
	char *text = arg_str(c->w[3]), name[64];
	int own = arg_int(c->w[2]), first, i, last;
	struct ec_node *n;
	FILE *f;
	int fd;

	snprintf(name, sizeof(name), "/tmp/ecv-yaml-XXXXXX");
	fd = mkstemp(name);
	if (fd < 0)
		exit(5);
	f = fdopen(fd, "w");
	if (text != NULL)
		fputs(text, f);
	fclose(f);
	if (text == NULL)
		unlink(name);
	fail_fired = 0;
	fail_at = arg_int(c->w[1]);
	n = ec_yaml_import(name);
	fail_at = 0;
	if (text != NULL)
		unlink(name);
	free(text);
	printf("{\"o\":\"yi\",\"r\":%d,\"f\":%ld,\"g\":[", n != NULL ? 0 : -1, fail_fired);
	if (n != NULL) {
		first = g_register(n, 1);
		walk(ec_node_get_config(n), own);
		last = first - 1;
		while (g_get(last + 1) != NULL)
			last++;
		for (i = first; i <= last; i++) {
			n = g_get(i);
			printf("%s{\"t\":", i > first ? "," : "");
			j_str(ec_node_get_type_name(n));
			printf(",\"id\":");
			j_str(ec_node_id(n));
			printf(",\"cf\":");
			j_cfg(ec_node_get_config(n));
			printf(",\"at\":");
			j_attrs(ec_node_attrs(n));
			putchar('}');
		}
	}
	printf("]}\n");
}

int area_yaml(struct cmd *c)
{
	if (!strcmp(c->w[0], "YI"))
		do_import(c);
	else
		return 0;
	return 1;
}
