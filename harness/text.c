/* helpers on strings: comparison, formatting, numbers, hash */
#include "drv.h"
#include <ecoli_string.h>
#include <ecoli_murmurhash.h>

#define MARK 7777

static int vfmt(char **buf, const char *fmt, ...)
{
	va_list ap;
	int r;

	va_start(ap, fmt);
	r = ec_vasprintf(buf, fmt, ap);
	va_end(ap);
	return r;
}

/* TX op args... */
int area_text(struct cmd *c)
{
	const char *op;
	char *a = NULL, *b = NULL;

	if (strcmp(c->w[0], "TX"))
		return 0;
	op = c->w[1];
	if (!strcmp(op, "cnt") || !strcmp(op, "sw")) {
		a = arg_str(c->w[2]);
		b = arg_str(c->w[3]);
		if (!strcmp(op, "cnt"))
			j_printf("{\"r\":%zu}\n", ec_strcmp_count(a, b));
		else
			j_printf("{\"r\":%d}\n", ec_str_startswith(a, b));
	} else if (!strcmp(op, "sp")) {
		a = arg_str(c->w[2]);
		j_printf("{\"r\":%d}\n", ec_str_is_space(a) ? 1 : 0);
	} else if (!strcmp(op, "ll") || !strcmp(op, "ul")) {
		int64_t v = 0;
		uint64_t u = 0;
		int r, e;

		a = arg_str(c->w[2]);
		errno = MARK;
		if (op[0] == 'l')
			r = ec_str_parse_llint(a, atoi(c->w[3]), strtoll(c->w[4], NULL, 10), strtoll(c->w[5], NULL, 10), &v);
		else {
			errno = 0;
			uint64_t lo = strtoull(c->w[4], NULL, 10), hi = strtoull(c->w[5], NULL, 10);
			errno = MARK;
			r = ec_str_parse_ullint(a, atoi(c->w[3]), lo, hi, &u);
		}
		e = errno;
		j_printf("{\"r\":%d,\"kept\":%d,\"e\":%d,\"v\":\"", r, e == MARK, e != MARK && e != 0);
		if (r == 0 && op[0] == 'l')
			j_printf("%" PRId64, v);
		else if (r == 0)
			j_printf("%" PRIu64, u);
		j_printf("\"}\n");
	} else if (!strcmp(op, "fmt")) {
		/* form, then one piece: width precision text number text */
		int form = atoi(c->w[2]), w = atoi(c->w[3]), p = atoi(c->w[4]), n = atoi(c->w[6]);
		char *buf = (char *)1;
		int r = -2;
		long ff = fail_at;

		a = arg_str(c->w[5]);
		b = arg_str(c->w[7]);
		fail_fired = 0;
		fail_at = ff;
		switch (form) {
		case 0: r = ec_asprintf(&buf, "%*.*s<%d>%s", w, p, a, n, b); break;
		case 1: r = vfmt(&buf, "%*.*s<%d>%s", w, p, a, n, b); break;
		case 2: r = ec_asprintf(&buf, "%s%%%*d", a, w, n); break;
		case 3: r = vfmt(&buf, "%s%s", a, b); break;
		case 4: r = ec_asprintf(&buf, "%s", a); break;
		case 5: r = ec_asprintf(&buf, "%c%s", 'Z', ""); break;
		case 6: r = vfmt(&buf, "%s", ""); break;
		}
		fail_at = 0;
		j_printf("{\"r\":%d,\"f\":%ld,\"null\":%d,\"v\":", r, fail_fired, buf == NULL);
		j_str(r >= 0 ? buf : "");
		j_printf("}\n");
		if (buf != (char *)1)
			ec_free(buf);
	} else if (!strcmp(op, "hash")) {
		/* offset of the key in memory, seed, bytes */
		size_t off = atoi(c->w[2]), n = (strlen(c->w[4]) - 1) / 2, i;
		uint32_t seed = strtoul(c->w[3], NULL, 10), h;
		unsigned char *m = malloc(off + n);
		unsigned int x;

		for (i = 0; i < n; i++) {
			sscanf(c->w[4] + 1 + 2 * i, "%2x", &x);
			m[off + i] = x;
		}
		h = ec_murmurhash3(m + off, n, seed);
		j_printf("{\"r\":[%u,%u,%u,%u]}\n", h & 255, h >> 8 & 255, h >> 16 & 255, h >> 24);
		free(m);
	} else
		return 0;
	free(a);
	free(b);
	return 1;
}
