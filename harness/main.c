#include "drv.h"
#include <time.h>
#include <stdarg.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

long live_allocs, alloc_calls, fail_at, fail_fired;
static long live_bytes_guard;

static int should_fail(void)
{
	alloc_calls++;
	if (fail_at > 0 && --fail_at == 0) {
		fail_fired++;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}

static void *t_malloc(size_t size, const char *file, unsigned int line)
{
	void *p;
	(void)file; (void)line;
	if (should_fail())
		return NULL;
	p = malloc(size);
	if (p != NULL && ++live_allocs > 20000000) {
		fprintf(stderr, "RUNAWAY allocations\n");
		abort();
	}
	return p;
}

static void t_free(void *ptr, const char *file, unsigned int line)
{
	(void)file; (void)line;
	if (ptr != NULL)
		live_allocs--;
	free(ptr);
}

static void *t_realloc(void *ptr, size_t size, const char *file, unsigned int line)
{
	void *p;
	(void)file; (void)line;
	if (should_fail())
		return NULL;
	p = realloc(ptr, size);
	if (p != NULL && ptr == NULL)
		live_allocs++;
	return p;
}

static int hexv(int c)
{
	if (c >= '0' && c <= '9')
		return c - '0';
	return c - 'a' + 10;
}

char *arg_str(const char *w)
{
	size_t i, n;
	char *s;

	if (w[0] != 'x')
		return NULL;
	n = strlen(w + 1) / 2;
	s = malloc(n + 1);
	for (i = 0; i < n; i++)
		s[i] = hexv(w[1 + 2 * i]) * 16 + hexv(w[2 + 2 * i]);
	s[n] = 0;
	return s;
}

long arg_int(const char *w) { return strtol(w, NULL, 10); }
long long arg_ll(const char *w) { return strtoll(w, NULL, 10); }

void j_str(const char *s)
{
	putchar('"');
	for (; s != NULL && *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\')
			printf("\\%c", c);
		else if (c < 0x20 || c >= 0x7f)
			printf("\\u%04x", c);
		else
			putchar(c);
	}
	putchar('"');
}

void j_printf(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
}

struct ec_strvec *arg_strvec(struct cmd *c, int first)
{
	long f = fail_at;
	struct ec_strvec *v;
	char *s;
	int i;

	fail_at = 0;
	v = ec_strvec();
	for (i = first; i < c->n; i++) {
		s = arg_str(c->w[i]);
		if (ec_strvec_add(v, s ? s : "") < 0)
			abort();
		free(s);
	}
	fail_at = f;
	return v;
}

static clock_t last_cpu;
static int idle;

/* limits of a case: cpu time, and time spent without using the cpu */
static void set_timer(int secs)
{
	struct itimerval it = { { 0, 0 }, { secs, 0 } };
	struct itimerval wall = { { secs ? 20 : 0, 0 }, { secs ? 20 : 0, 0 } };

	last_cpu = clock();
	idle = 0;
	setitimer(ITIMER_PROF, &it, NULL);
	setitimer(ITIMER_REAL, &wall, NULL);
}

static void on_wall(int sig)
{
	static const char msg[] = "\nTIMEOUT: the case is blocked\n";
	clock_t now = clock();

	(void)sig;
	idle = now - last_cpu < CLOCKS_PER_SEC / 10 ? idle + 1 : 0;
	last_cpu = now;
	if (idle < 2)
		return;
	if (write(2, msg, sizeof(msg) - 1) < 0)
		_exit(98);
	_exit(97);
}

static void on_prof(int sig)
{
	static const char msg[] = "\nTIMEOUT: the case used too much cpu time\n";
	(void)sig;
	if (write(2, msg, sizeof(msg) - 1) < 0)
		_exit(98);
	_exit(97);
}

int main(int argc, char **argv)
{
	static char line[1 << 20];
	char *words[20000];
	struct cmd c;
	long base_live = 0, cur = -1;
	int cpu = argc > 1 ? atoi(argv[1]) : 10;

	(void)live_bytes_guard;
	if (argc > 2 && !strcmp(argv[1], "rt"))
		return rt_main(argc - 2, argv + 2);
	signal(SIGPROF, on_prof);
	signal(SIGALRM, on_wall);
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	if (ec_malloc_register(t_malloc, t_free, t_realloc) < 0)
		return 3;
	if (ec_init() < 0)
		return 3;
	if (getenv("DRV_DEBUG") == NULL)
		ec_log_level_set(EC_LOG_EMERG);
	while (fgets(line, sizeof(line), stdin) != NULL) {
		char *t, *sv;
		c.n = 0;
		c.w = words;
		for (t = strtok_r(line, " \n", &sv); t; t = strtok_r(NULL, " \n", &sv))
			words[c.n++] = t;
		if (c.n == 0)
			continue;
		if (!strcmp(words[0], "C")) {        /* begin a case */
			cur = arg_int(words[1]);
			printf("{\"begin\":%ld}\n", cur);
			fflush(stdout);
			set_timer(cpu);
			base_live = live_allocs;
			continue;
		}
		if (!strcmp(words[0], "E")) {        /* end a case */
			fail_at = 0;
			area_keep_reset();
			area_pnode_reset();
			area_config_reset();
			area_grammar_reset();
			area_cont_reset();
			area_misc_reset();
			area_edit_reset();
			area_file_reset();
			printf("{\"end\":%ld,\"leak\":%ld}\n", cur,
				live_allocs - base_live);
			fflush(stdout);
			set_timer(0);
			continue;
		}
		if (area_oom(&c) || area_grammar(&c) || area_expr(&c) || area_comp(&c) || area_pnode(&c) || area_config(&c) || area_yaml(&c) || area_file(&c) || area_intro(&c) || area_keep(&c) || area_text(&c) ||
				area_cont(&c) || area_misc(&c) ||
				area_edit(&c)) {
			fflush(stdout);
			continue;
		}
		fprintf(stderr, "unknown command %s\n", words[0]);
		return 4;
	}
	ec_exit();
	printf("{\"exit\":0,\"leak\":%ld}\n", live_allocs);
	fflush(stdout);
	return 0;
}
