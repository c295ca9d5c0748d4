/* containers: string vectors, hash tables, dictionaries, vectors */
#include "drv.h"
#include <limits.h>

#define SLOTS 6
#define MAXV 4096

/* user values: freed at most once, never used afterwards */
static char vstate[MAXV];       /* 0: not used, 1: live, 2: freed */
static char vobj[MAXV];
static int vmax;

static void val_free(void *p)
{
	int id = (char *)p - vobj;

	if (p == NULL)
		return;
	if (id < 1 || id >= MAXV || vstate[id] != 1) {
		fprintf(stderr, "BROKEN value freed twice\n");
		abort();
	}
	vstate[id] = 2;
}

static void *val_new(int id)
{
	if (id == 0)
		return NULL;
	vstate[id] = 1;
	if (id > vmax)
		vmax = id;
	return &vobj[id];
}

static int val_id(const void *p) { return p == NULL ? 0 : (int)((const char *)p - vobj); }

/* result of an operation: r, whether errno is set */
static void res(int r)
{
	printf("{\"r\":%d,\"e\":%d", r, errno != 0);
}

static void live(void)
{
	int i, sep = 0;

	printf(",\"live\":[");
	for (i = 1; i <= vmax; i++)
		if (vstate[i] == 1)
			printf("%s%d", sep++ ? "," : "", i);
	printf("]");
}

/* is the operation possible with the slots as they are? when an operation
 * was refused for lack of memory, the next ones may not be */
static int possible(struct cmd *c, void **slot, void **slot2)
{
	const char *op = c->w[1];
	int i = arg_int(c->w[2]), j;
#define USED(x) (slot[x] != NULL || slot2[x] != NULL)

	if (!strcmp(op, "new") || !strcmp(op, "from"))
		return !USED(i);
	if (!USED(i))
		return 0;
	j = c->n > 3 ? arg_int(c->w[3]) : 0;
	if (!strcmp(op, "dup") || !strcmp(op, "ndup"))
		return !USED(j);
	if (!strcmp(op, "cmp"))
		return USED(j);
	return 1;
}

static void arm(struct cmd *c)
{
	(void)c;
	fail_fired = 0;
	errno = 0;
}

/* ------------------------------------------------------- string vectors */
static struct ec_strvec *sv[SLOTS];

static int cmp_rev(const char *a, const char *b) { return -strcmp(a, b); }
static int cmp_len(const char *a, const char *b) { return (int)strlen(a) - (int)strlen(b); }

static void sv_dump(void)
{
	const struct ec_dict *d;
	size_t j, n;
	int i;

	printf(",\"S\":[");
	for (i = 1; i < SLOTS; i++) {
		printf("%s{\"u\":%d,\"v\":[", i > 1 ? "," : "", sv[i] != NULL);
		n = sv[i] ? ec_strvec_len(sv[i]) : 0;
		for (j = 0; j < n; j++) {
			printf("%s{\"s\":", j ? "," : "");
			j_str(ec_strvec_val(sv[i], j));
			d = ec_strvec_get_attrs(sv[i], j);
			printf(",\"a\":%d}", d ? val_id(ec_dict_get(d, "k")) : 0);
		}
		printf("]}");
	}
	printf("]");
	live();
}

static void do_sv(struct cmd *c)
{
	const char *op = c->w[1];
	int i = arg_int(c->w[2]), r = 0, k;
	long ff = fail_at;
	char *s = NULL;
	struct ec_dict *d;

	fail_at = 0;
	fail_fired = 0;
	if (!possible(c, (void **)sv, (void **)sv)) {
		r = -3;
	} else if (!strcmp(op, "new")) {
		fail_at = ff;
		arm(c);
		sv[i] = ec_strvec();
		r = sv[i] ? 0 : -1;
	} else if (!strcmp(op, "from")) {
		const char *arr[1024];
		int n = c->n - 3;
		for (k = 0; k < n; k++)
			arr[k] = arg_str(c->w[3 + k]);
		fail_at = ff;
		arm(c);
		sv[i] = ec_strvec_from_array(arr, n);
		r = sv[i] ? 0 : -1;
		for (k = 0; k < n; k++)
			free((char *)arr[k]);
	} else if (!strcmp(op, "add")) {
		s = arg_str(c->w[3]);
		fail_at = ff;
		arm(c);
		r = ec_strvec_add(sv[i], s);
	} else if (!strcmp(op, "set")) {
		s = arg_str(c->w[4]);
		fail_at = ff;
		arm(c);
		r = ec_strvec_set(sv[i], strtoul(c->w[3], NULL, 10), s);
	} else if (!strcmp(op, "del")) {
		arm(c);
		r = ec_strvec_del_last(sv[i]);
	} else if (!strcmp(op, "dup")) {
		k = arg_int(c->w[3]);
		fail_at = ff;
		arm(c);
		sv[k] = ec_strvec_dup(sv[i]);
		r = sv[k] ? 0 : -1;
	} else if (!strcmp(op, "ndup")) {
		k = arg_int(c->w[3]);
		fail_at = ff;
		arm(c);
		sv[k] = ec_strvec_ndup(sv[i], strtoul(c->w[4], NULL, 10),
				strtoul(c->w[5], NULL, 10));
		r = sv[k] ? 0 : -1;
	} else if (!strcmp(op, "free")) {
		arm(c);
		ec_strvec_free(sv[i]);
		sv[i] = NULL;
	} else if (!strcmp(op, "attr")) { /* attr i idx id: 0 means no dict */
		int id = arg_int(c->w[4]);
		d = NULL;
		if (id) {
			d = ec_dict();
			if (ec_dict_set(d, "k", val_new(id), val_free) < 0)
				abort();
		}
		fail_at = ff;
		arm(c);
		r = ec_strvec_set_attrs(sv[i], strtoul(c->w[3], NULL, 10), d);
	} else if (!strcmp(op, "cmp")) {
		arm(c);
		r = ec_strvec_cmp(sv[i], sv[arg_int(c->w[3])]) != 0;
		errno = 0;
	} else if (!strcmp(op, "sort")) {
		arm(c);
		ec_strvec_sort(sv[i], c->w[3][0] == 'r' ? cmp_rev :
				c->w[3][0] == 'l' ? cmp_len : NULL);
		errno = 0;
	} else
		abort();
	fail_at = 0;
	res(r);
	printf(",\"f\":%ld", fail_fired);
	sv_dump();
	printf("}\n");
	free(s);
}

/* ------------------------------------------------ tables and dictionaries */
static struct ec_htable *ht[SLOTS];
static struct ec_dict *di[SLOTS];

static void ht_dump(void)
{
	struct ec_htable_elt_ref *it;
	struct ec_dict_elt_ref *dt;
	int i, sep;

	printf(",\"S\":[");
	for (i = 1; i < SLOTS; i++) {
		printf("%s{\"u\":%d,\"n\":%zu,\"v\":[", i > 1 ? "," : "",
			ht[i] != NULL || di[i] != NULL,
			ht[i] ? ec_htable_len(ht[i]) : di[i] ? ec_dict_len(di[i]) : 0);
		sep = 0;
		for (it = ht[i] ? ec_htable_iter(ht[i]) : NULL; it != NULL;
		     it = ec_htable_iter_next(it)) {
			const unsigned char *k = ec_htable_iter_get_key(it);
			size_t j, n = ec_htable_iter_get_key_len(it);
			printf("%s{\"k\":\"x", sep++ ? "," : "");
			for (j = 0; j < n; j++)
				printf("%02x", k[j]);
			printf("\",\"v\":%d}", val_id(ec_htable_iter_get_val(it)));
		}
		for (dt = di[i] ? ec_dict_iter(di[i]) : NULL; dt != NULL;
		     dt = ec_dict_iter_next(dt)) {
			const char *k = ec_dict_iter_get_key(dt);
			size_t j;
			printf("%s{\"k\":\"x", sep++ ? "," : "");
			for (j = 0; k[j]; j++)
				printf("%02x", (unsigned char)k[j]);
			printf("\",\"v\":%d}", val_id(ec_dict_iter_get_val(dt)));
		}
		printf("]}");
	}
	printf("]");
	live();
}

/* HT|DI op slot key value owned dump? */
static void do_ht(struct cmd *c, int dict)
{
	const char *op = c->w[1];
	int i = arg_int(c->w[2]), r = 0, v = 0;
	char *k = c->n > 3 ? arg_str(c->w[3]) : NULL;
	size_t kl = k ? (strlen(c->w[3]) - 1) / 2 : 0;
	long ff = fail_at;
	int view = c->w[c->n - 1][0] == 'V';
	/* the library does not keep the memory of the key */
	char *key = k && !dict ? malloc(kl) : k;

	if (k && !dict)
		memcpy(key, k, kl);
	fail_at = 0;
	fail_fired = 0;
	if (!possible(c, (void **)ht, (void **)di)) {
		r = -3;
		errno = 0;
	} else if (!strcmp(op, "new")) {
		fail_at = ff;
		arm(c);
		if (dict)
			di[i] = ec_dict();
		else
			ht[i] = ec_htable();
		r = di[i] || ht[i] ? 0 : -1;
	} else if (!strcmp(op, "set")) {
		int id = arg_int(c->w[4]), owned = arg_int(c->w[5]);
		void *p = val_new(id);
		if (!owned)
			vstate[id] = 0;
		fail_at = ff;
		arm(c);
		if (dict)
			r = ec_dict_set(di[i], key, p, owned ? val_free : NULL);
		else
			r = ec_htable_set(ht[i], key, kl, p, owned ? val_free : NULL);
	} else if (!strcmp(op, "get")) {
		errno = 77;
		v = val_id(dict ? ec_dict_get(di[i], key) : ec_htable_get(ht[i], key, kl));
		if (v != 0)
			errno = 0;
		else if (errno == 77)
			r = -2; /* documented: errno is set */
	} else if (!strcmp(op, "has")) {
		arm(c);
		r = dict ? ec_dict_has_key(di[i], key) : ec_htable_has_key(ht[i], key, kl);
		errno = 0;
	} else if (!strcmp(op, "del")) {
		arm(c);
		r = dict ? ec_dict_del(di[i], key) : ec_htable_del(ht[i], key, kl);
	} else if (!strcmp(op, "dup")) {
		int j = arg_int(c->w[3]);
		fail_at = ff;
		arm(c);
		if (dict)
			di[j] = ec_dict_dup(di[i]);
		else
			ht[j] = ec_htable_dup(ht[i]);
		r = di[j] || ht[j] ? 0 : -1;
	} else if (!strcmp(op, "free")) {
		arm(c);
		if (dict)
			ec_dict_free(di[i]);
		else
			ec_htable_free(ht[i]);
		di[i] = NULL;
		ht[i] = NULL;
	} else
		abort();
	fail_at = 0;
	if (r == 0 && strcmp(op, "get"))
		errno = 0;
	res(r);
	printf(",\"v\":%d,\"f\":%ld,\"w\":%d", v, fail_fired, view);
	if (view)
		ht_dump();
	printf("}\n");
	if (key != k)
		free(key);
	free(k);
}

/* ---------------------------------------------------------------- vectors */
static struct ec_vec *ve[SLOTS];
static int vsize[SLOTS];        /* size of the elements, 0: owned values */
static int vrefs[MAXV];

struct obj { int id; char pad[8]; };

static void obj_copy(void *dst, void *src)
{
	memcpy(dst, src, sizeof(struct obj));
	vrefs[((struct obj *)dst)->id]++;
}

static void obj_free(void *p)
{
	int id = ((struct obj *)p)->id;

	if (id < 1 || id >= MAXV || vrefs[id] <= 0) {
		fprintf(stderr, "BROKEN element freed twice\n");
		abort();
	}
	vrefs[id]--;
}

/* vectors with only one of the two functions: the calls are counted */
static long ncopy, nfree;
static void one_copy(void *dst, void *src) { memcpy(dst, src, sizeof(struct obj)); ncopy++; }
static void one_free(void *p) { (void)p; nfree++; }
#define IS_OBJ(n) ((n) == 0 || (n) >= 100)

static void ve_dump(void)
{
	unsigned char b[32];
	struct obj o;
	uint64_t u;
	size_t j, n;
	int i, sep = 0;

	printf(",\"S\":[");
	for (i = 1; i < SLOTS; i++) {
		printf("%s{\"u\":%d,\"v\":[", i > 1 ? "," : "", ve[i] != NULL);
		n = ec_vec_len(ve[i]);
		for (j = 0; j < n; j++) {
			if (IS_OBJ(vsize[i])) {
				if (ec_vec_get(&o, ve[i], j) < 0)
					abort();
				u = o.id;
			} else {
				memset(b, 0, sizeof(b));
				if (ec_vec_get(b, ve[i], j) < 0)
					abort();
				memcpy(&u, b, 8);
				if (vsize[i] == 16 && (b[8] != 0x5a || memcmp(b + 8, b + 9, 7)))
					u = 999999;
			}
			printf("%s\"%" PRIu64 "\"", j ? "," : "", u);
		}
		printf("]}");
	}
	printf("],\"live\":[");
	for (i = 1; i <= vmax; i++)
		if (vrefs[i]) {
			printf("%s[%d,%d]", sep++ ? "," : "", i, vrefs[i]);
		}
	printf("],\"n\":[%ld,%ld]", ncopy, nfree);
}

static void do_ve(struct cmd *c)
{
	const char *op = c->w[1];
	int i = arg_int(c->w[2]), r = 0, j;
	long ff = fail_at;
	uint64_t u = c->n > 4 ? strtoull(c->w[4], NULL, 10) : 0;
	unsigned char b[64];

	fail_at = 0;
	fail_fired = 0;
	if (!possible(c, (void **)ve, (void **)ve)) {
		r = -3;
	} else if (!strcmp(op, "new")) { /* new i size reserve */
		vsize[i] = arg_int(c->w[3]);
		fail_at = ff;
		arm(c);
		ve[i] = vsize[i] == 100 ? ec_vec(sizeof(struct obj), u, one_copy, NULL) :
			vsize[i] == 101 ? ec_vec(sizeof(struct obj), u, NULL, one_free) :
			vsize[i] ? ec_vec(vsize[i] < 0 ? 0 : vsize[i], u, NULL, NULL) :
			ec_vec(sizeof(struct obj), u, obj_copy, obj_free);
		r = ve[i] ? 0 : -1;
	} else if (!strcmp(op, "add")) { /* add i width value */
		struct obj o = { .id = u };
		fail_at = ff;
		arm(c);
		switch (c->w[3][0]) {
		case '1': r = ec_vec_add_u8(ve[i], u); break;
		case '2': r = ec_vec_add_u16(ve[i], u); break;
		case '4': r = ec_vec_add_u32(ve[i], u); break;
		case '8': r = ec_vec_add_u64(ve[i], u); break;
		case 'p': r = ec_vec_add_ptr(ve[i], (void *)(uintptr_t)u); break;
		case 'b': /* the first bytes of a value */
			memset(b, 0x5a, sizeof(b));
			memcpy(b, &u, 8);
			r = ec_vec_add_by_ref(ve[i], b);
			break;
		default:
			r = ec_vec_add_by_ref(ve[i], &o);
			if (vsize[i])
				break;
			if (r == 0)
				vrefs[o.id]++;
			if (o.id > vmax)
				vmax = o.id;
		}
	} else if (!strcmp(op, "get")) { /* get i idx */
		arm(c);
		memset(b, 0, sizeof(b));
		r = ec_vec_get(b, ve[i], strtoul(c->w[3], NULL, 10));
	} else if (!strcmp(op, "dup")) {
		j = arg_int(c->w[3]);
		fail_at = ff;
		arm(c);
		ve[j] = ec_vec_dup(ve[i]);
		vsize[j] = vsize[i];
		r = ve[j] ? 0 : -1;
	} else if (!strcmp(op, "ndup")) {
		j = arg_int(c->w[3]);
		fail_at = ff;
		arm(c);
		ve[j] = ec_vec_ndup(ve[i], u, strtoul(c->w[5], NULL, 10));
		vsize[j] = vsize[i];
		r = ve[j] ? 0 : -1;
	} else if (!strcmp(op, "free")) {
		arm(c);
		ec_vec_free(ve[i]);
		ve[i] = NULL;
	} else
		abort();
	fail_at = 0;
	res(r);
	printf(",\"f\":%ld", fail_fired);
	ve_dump();
	printf("}\n");
}

/* ---------------------------------------------------------------- lexing */
static void do_shlex(struct cmd *c) /* SHLEX flags string */
{
	char *s = arg_str(c->w[2]), q = 'n';
	int flags = arg_int(c->w[1]);
	struct ec_strvec *v;
	size_t i;

	errno = 0;
	v = ec_strvec_sh_lex_str(s, flags & 3, flags & 4 ? NULL : &q);
	printf("{\"o\":\"lex\",\"e\":\"%s\",\"q\":", v ? "" :
		errno == EBADMSG ? "EBADMSG" : errno == EINVAL ? "EINVAL" :
		errno == ENOBUFS ? "ENOBUFS" : "?");
	{
		char qs[2] = { q, 0 };
		j_str(q == 0 ? "0" : qs);
	}
	printf(",\"t\":[");
	for (i = 0; v != NULL && i < ec_strvec_len(v); i++) {
		if (i)
			putchar(',');
		j_str(ec_strvec_val(v, i));
	}
	printf("]}\n");
	ec_strvec_free(v);
	free(s);
}

int area_cont(struct cmd *c)
{
	const char *w = c->w[0];

	if (!strcmp(w, "FAIL")) { /* FAIL n: the nth next allocation fails */
		fail_at = arg_int(c->w[1]);
		return 1;
	}
	if (!strcmp(w, "SV")) {
		do_sv(c);
		return 1;
	}
	if (!strcmp(w, "HT") || !strcmp(w, "DI")) {
		do_ht(c, w[0] == 'D');
		return 1;
	}
	if (!strcmp(w, "VE")) {
		do_ve(c);
		return 1;
	}
	if (!strcmp(w, "SHLEX")) {
		do_shlex(c);
		return 1;
	}
	return 0;
}

void area_cont_reset(void)
{
	int i;

	for (i = 1; i < SLOTS; i++) {
		ec_strvec_free(sv[i]);
		sv[i] = NULL;
		ec_htable_free(ht[i]);
		ht[i] = NULL;
		if (di[i])
			ec_dict_free(di[i]);
		di[i] = NULL;
		ec_vec_free(ve[i]);
		ve[i] = NULL;
	}
	for (i = 1; i <= vmax; i++) {
		if (vstate[i] == 1)
			live_allocs += 1000000; /* reported as a leak */
		vstate[i] = 0;
		if (vrefs[i])
			live_allocs += 1000000;
		vrefs[i] = 0;
	}
	vmax = 0;
	ncopy = nfree = 0;
}
