/* run-time services: initialization, allocator, logs, node types. Their state
 * belongs to the process, so each history is executed by a new one. */
#include "drv.h"
#include <sys/types.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>

#define NINIT 6
#define NSLOT 6
#define NTYPE 12

/* ------------------------------------------------------------ init and exit */
static int calls[64], ncalls;
static int fails[NINIT];

static int on_init(int k)
{
	if (ncalls < 64)
		calls[ncalls++] = k;
	if (fails[k])
		errno = EIO;
	return fails[k] ? -1 : 0;
}

static void on_exit_(int k)
{
	if (ncalls < 64)
		calls[ncalls++] = k;
}

#define CB(k) static int init##k(void) { return on_init(k); } static void exit##k(void) { on_exit_(k); }
CB(0) CB(1) CB(2) CB(3) CB(4) CB(5)
static ec_init_t *const inits[NINIT] = { init0, init1, init2, init3, init4, init5 };
static ec_exit_t *const exits[NINIT] = { exit0, exit1, exit2, exit3, exit4, exit5 };
static struct ec_init ini[NINIT];

/* ---------------------------------------------------------------- allocator */
static int used;          /* handler called, or 0 */
static int nused;         /* number of calls */
static size_t asked;
static void *known[8192];
static int nknown, live;

static void remember(void *p)
{
	if (p == NULL)
		return;
	live++;
	if (nknown < 8192)
		known[nknown++] = p;
}

static void forget(void *p)
{
	int i;
	for (i = 0; p != NULL && i < nknown; i++)
		if (known[i] == p) {
			known[i] = known[--nknown];
			live--;
			return;
		}
}

static void *h_malloc(int h, size_t size)
{
	void *p;
	used = h;
	nused++;
	asked = size;
	if (fail_at > 0 && --fail_at == 0) {
		fail_fired++;
		errno = ENOMEM;
		return NULL;
	}
	p = malloc(size);
	if (p != NULL)
		memset(p, 0xa5, size);
	remember(p);
	return p;
}

static void h_free(int h, void *p)
{
	used = h;
	nused++;
	forget(p);
	free(p);
}

static void *h_realloc(int h, void *p, size_t size)
{
	void *q;
	used = h;
	nused++;
	asked = size;
	if (fail_at > 0 && --fail_at == 0) {
		fail_fired++;
		errno = ENOMEM;
		return NULL;
	}
	forget(p);
	q = realloc(p, size);
	remember(q == NULL ? p : q);
	return q;
}

#define H(k) \
static void *malloc##k(size_t n, const char *f, unsigned int l) { (void)f; (void)l; return h_malloc(k, n); } \
static void free##k(void *p, const char *f, unsigned int l) { (void)f; (void)l; h_free(k, p); } \
static void *realloc##k(void *p, size_t n, const char *f, unsigned int l) { (void)f; (void)l; return h_realloc(k, p, n); }
H(1) H(2)

/* -------------------------------------------------------------------- slots */
static struct { char *p; size_t n; int ok; } slot[NSLOT];
static struct ec_node *node[NSLOT];
static struct ec_node_type type[NTYPE];

static int tag_of(const struct ec_node_type *t)
{
	if (t == NULL)
		return -1;
	if (t >= type && t < type + NTYPE)
		return t - type;
	return 100;
}

/* --------------------------------------------------------------------- logs */
static int lcb, ltype, llevel, ltag;
static char lstr[256];
static int tags[4] = { 0, 1, 2, 3 };

static int log_common(int cb, int t, int level, void *opaque, const char *str)
{
	lcb = cb;
	ltype = t;
	llevel = level;
	ltag = opaque == NULL ? -1 : *(int *)opaque;
	snprintf(lstr, sizeof(lstr), "%s", str);
	return cb == 1 ? 0 : 7;
}
static int log1(int t, enum ec_log_level level, void *o, const char *s) { return log_common(1, t, level, o, s); }
static int log2(int t, enum ec_log_level level, void *o, const char *s) { return log_common(2, t, level, o, s); }

static int split(char *s, char **w)
{
	int n = 0;
	char *sv;
	for (s = strtok_r(s, ":", &sv); s != NULL && n < 8; s = strtok_r(NULL, ":", &sv))
		w[n++] = s;
	return n;
}

static void filled(char *p, size_t n, size_t from)
{
	size_t i;
	for (i = from; i < n; i++)
		p[i] = (char)(i * 7 + 3);
}

static int is_filled(const char *p, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++)
		if (p[i] != (char)(i * 7 + 3))
			return 0;
	return 1;
}

static int is_zero(const char *p, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++)
		if (p[i] != 0)
			return 0;
	return 1;
}

static void alloc_op(char **w)
{
	int k = arg_int(w[1]);
	char kind = w[2][0];
	size_t a = strtoull(w[3], NULL, 10), b = strtoull(w[4], NULL, 10);
	char *p = NULL, *s;
	size_t n = a, ask;
	int ok = 1, e, r;

	if (kind != 'r') {
		ec_free(slot[k].p);
		slot[k].p = NULL;
		slot[k].n = 0;
	}
	fail_at = arg_int(w[5]);
	used = nused = 0;
	asked = 0;
	errno = 0;
	if (kind == 'm')
		p = ec_malloc(a);
	else if (kind == 'f')
		p = ec_malloc_func(a);
	else if (kind == 'c') {
		p = ec_calloc(a, b);
		n = a * b;
		ok = p == NULL || is_zero(p, n);
	} else if (kind == 'r') {
		p = ec_realloc(slot[k].p, a);
		ok = p == NULL || is_filled(p, slot[k].n < n ? slot[k].n : n);
	} else if (kind == 's' || kind == 'n') {
		s = malloc(a + 1);
		filled(s, a, 0);
		s[a] = 0;
		for (n = 0; n < a; n++)
			if (s[n] == 0)
				s[n] = 'z';
		if (kind == 'n' && b <= a) /* what is after is not there to read */
			s = realloc(s, b > 0 ? b : 1);
		p = kind == 's' ? ec_strdup(s) : ec_strndup(s, b);
		n = kind == 's' || b > a ? a : b;
		ok = p == NULL || (strlen(p) == n && !memcmp(p, s, n));
		free(s);
		n++;
	}
	e = errno;
	fail_at = 0;
	r = used;
	ask = asked;
	if (p != NULL) {
		if (kind != 'r')
			used = 0;
		slot[k].p = p;
		slot[k].n = n;
		filled(p, n, 0);
	}
	printf("{\"o\":\"rt\",\"r\":%d,\"f\":%ld,\"e\":%d,\"h\":%d,\"n\":%d,\"ask\":%d,\"ok\":%d}\n", p == NULL ? -1 : 0,
		fail_fired, p == NULL && e == 0 ? -1 : 0, r, nused, ask > 1000000000 ? -1 : (int)ask, ok);
}

static void log_op(char **w)
{
	int t = arg_int(w[1]), level = arg_int(w[2]), num = arg_int(w[4]), r, save, fd;
	char *s = arg_str(w[3]), text[512];
	FILE *f = tmpfile();
	ssize_t n;

	lcb = 0;
	ltype = llevel = ltag = -1;
	lstr[0] = 0;
	fflush(stderr);
	save = dup(2);
	fd = fileno(f);
	dup2(fd, 2);
	r = ec_log(t, level, "%s/%d\n", s, num);
	fflush(stderr);
	dup2(save, 2);
	close(save);
	n = pread(fd, text, sizeof(text) - 1, 0);
	text[n < 0 ? 0 : n] = 0;
	fclose(f);
	printf("{\"o\":\"rt\",\"r\":%d,\"cb\":%d,\"t\":%d,\"l\":%d,\"tag\":%d,\"s\":", r, lcb, ltype, llevel, ltag);
	j_str(lstr);
	printf(",\"err\":");
	j_str(text);
	printf("}\n");
	free(s);
}

static void rt_op(char *op)
{
	char *w[8] = { 0 }, *s;
	int i, r, e;

	split(op, w);
	fail_at = fail_fired = 0;
	errno = 0;
	if (!strcmp(w[0], "IR")) { /* IR:k:prio:init:exit */
		i = arg_int(w[1]);
		ini[i].priority = arg_int(w[2]);
		fails[i] = arg_int(w[3]) == 2;
		ini[i].init = arg_int(w[3]) ? inits[i] : NULL;
		ini[i].exit = arg_int(w[4]) ? exits[i] : NULL;
		ec_init_register(&ini[i]);
		printf("{\"o\":\"rt\"}\n");
	} else if (!strcmp(w[0], "II") || !strcmp(w[0], "IX")) { /* II:fail */
		ncalls = 0;
		r = 0;
		if (w[0][1] == 'I') {
			fail_at = arg_int(w[1]);
			r = ec_init();
		} else
			ec_exit();
		e = errno;
		fail_at = 0;
		printf("{\"o\":\"rt\",\"r\":%d,\"e\":%d,\"f\":%ld,\"calls\":[", r, r < 0 && e == 0 ? -1 : 0, fail_fired);
		for (i = 0; i < ncalls; i++)
			printf("%s%d", i ? "," : "", calls[i]);
		printf("]}\n");
		ec_log_level_set(EC_LOG_WARNING);
	} else if (!strcmp(w[0], "MR")) { /* MR:h */
		static const ec_malloc_t m[] = { NULL, malloc1, malloc2, NULL, malloc2, malloc1 };
		static const ec_free_t f[] = { NULL, free1, free2, free1, NULL, free2 };
		static const ec_realloc_t q[] = { NULL, realloc1, realloc2, realloc2, realloc1, NULL };
		i = arg_int(w[1]);
		r = ec_malloc_register(m[i], f[i], q[i]);
		e = errno;
		printf("{\"o\":\"rt\",\"r\":%d,\"e\":\"%s\"}\n", r, r == 0 ? "" : e == EINVAL ? "EINVAL" : e == EBUSY ? "EBUSY" : "?");
	} else if (!strcmp(w[0], "MA")) { /* MA:slot:kind:a:b:fail */
		alloc_op(w);
	} else if (!strcmp(w[0], "MF")) { /* MF:slot:func */
		i = arg_int(w[1]);
		used = nused = 0;
		if (arg_int(w[2]))
			ec_free_func(slot[i].p);
		else
			ec_free(slot[i].p);
		slot[i].p = NULL;
		slot[i].n = 0;
		printf("{\"o\":\"rt\",\"h\":%d,\"n\":%d}\n", used, nused);
	} else if (!strcmp(w[0], "LT")) { /* LT:name:fail */
		s = arg_str(w[1]);
		fail_at = arg_int(w[2]);
		r = ec_log_type_register(s);
		fail_at = 0;
		printf("{\"o\":\"rt\",\"r\":%d,\"f\":%ld,\"s\":", r, fail_fired);
		j_str(ec_log_name(r));
		printf("}\n");
		free(s);
	} else if (!strcmp(w[0], "LN")) { /* LN:id */
		printf("{\"o\":\"rt\",\"s\":");
		j_str(ec_log_name(arg_int(w[1])));
		printf("}\n");
	} else if (!strcmp(w[0], "LF")) { /* LF:cb:tag */
		i = arg_int(w[1]);
		r = ec_log_fct_register(i == 0 ? NULL : i == 1 ? log1 : log2, arg_int(w[2]) == 0 ? NULL : &tags[arg_int(w[2])]);
		printf("{\"o\":\"rt\",\"r\":%d}\n", r);
	} else if (!strcmp(w[0], "LL")) { /* LL:level */
		r = ec_log_level_set(arg_int(w[1]));
		printf("{\"o\":\"rt\",\"r\":%d,\"l\":%d}\n", r, (int)ec_log_level_get());
	} else if (!strcmp(w[0], "LG")) { /* LG:type:level:text:num */
		log_op(w);
	} else if (!strcmp(w[0], "NT")) { /* NT:tag:name:override */
		i = arg_int(w[1]);
		type[i].name = arg_str(w[2]);
		r = ec_node_type_register(&type[i], arg_int(w[3]));
		e = errno;
		if (r < 0)
			free((char *)(uintptr_t)type[i].name);
		printf("{\"o\":\"rt\",\"r\":%d,\"e\":\"%s\"}\n", r, r == 0 ? "" : e == EEXIST ? "EEXIST" : "?");
	} else if (!strcmp(w[0], "NL")) { /* NL:name */
		s = arg_str(w[1]);
		r = tag_of(ec_node_type_lookup(s));
		e = errno;
		printf("{\"o\":\"rt\",\"r\":%d,\"e\":\"%s\"}\n", r, r >= 0 ? "" : e == ENOENT ? "ENOENT" : "?");
		free(s);
	} else if (!strcmp(w[0], "NN")) { /* NN:slot:name */
		i = arg_int(w[1]);
		s = arg_str(w[2]);
		ec_node_free(node[i]);
		node[i] = ec_node(s, "x");
		printf("{\"o\":\"rt\",\"r\":%d}\n", node[i] == NULL ? -1 : tag_of(ec_node_type(node[i])));
		free(s);
	} else if (!strcmp(w[0], "NQ")) { /* NQ:slot */
		i = arg_int(w[1]);
		printf("{\"o\":\"rt\",\"r\":%d,\"s\":", node[i] == NULL ? -1 : tag_of(ec_node_type(node[i])));
		j_str(node[i] == NULL ? "" : ec_node_type_name(ec_node_type(node[i])));
		printf("}\n");
	} else if (!strcmp(w[0], "ND")) { /* ND: the names of the types that are listed */
		char *buf = NULL, *t, *sv;
		size_t n;
		FILE *f = open_memstream(&buf, &n);
		ec_node_type_dump(f);
		fclose(f);
		printf("{\"o\":\"rt\",\"v\":[");
		for (i = 0, t = strtok_r(buf, "\n", &sv); t != NULL; t = strtok_r(NULL, "\n", &sv)) {
			printf("%s", i++ ? "," : "");
			j_str(t);
		}
		printf("]}\n");
		free(buf);
	} else if (!strcmp(w[0], "Z")) { /* end: what is still allocated */
		for (i = 0; i < NSLOT; i++) {
			ec_node_free(node[i]);
			ec_free(slot[i].p);
			node[i] = NULL;
			slot[i].p = NULL;
		}
		printf("{\"o\":\"rt\",\"live\":%d}\n", live);
	} else {
		fprintf(stderr, "unknown %s\n", w[0]);
		exit(4);
	}
	fflush(stdout);
}

int rt_main(int n, char **v)
{
	int i;

	alarm(60);
	for (i = 0; i < n; i++)
		rt_op(v[i]);
	_exit(0);
}

int area_misc(struct cmd *c)
{
	char *argv[300];
	int i, st = 0;
	pid_t pid;

	if (strcmp(c->w[0], "RT"))
		return 0;
	fflush(stdout);
	argv[0] = (char *)"drv";
	argv[1] = (char *)"rt";
	for (i = 1; i < c->n && i < 290; i++)
		argv[i + 1] = c->w[i];
	argv[i + 1] = NULL;
	pid = fork();
	if (pid < 0)
		exit(5);
	if (pid == 0) {
		struct itimerval it = { { 0, 0 }, { 0, 0 } };
		setitimer(ITIMER_PROF, &it, NULL);
		execv("/proc/self/exe", argv);
		_exit(5);
	}
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
		;
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
		fprintf(stderr, "child failed: status %x\n", st);
		fflush(stderr);
		_exit(WIFEXITED(st) ? WEXITSTATUS(st) : 96);
	}
	return 1;
}

void area_misc_reset(void)
{
}
