/* command line edition: an editline object without terminal, whose buffer is
 * filled by the operations */
#include "drv.h"
#include <unistd.h>
#include <fcntl.h>
#include <pty.h>
#include <termios.h>
#include <pthread.h>
#include <sys/stat.h>
#include <histedit.h>
#include <ecoli_editline.h>

static struct ec_editline *ed;
static FILE *fin, *fout, *ferr;
static int feed = -1, isatty_;
static long outpos;
static char dir[64], hist[80];

static pthread_t drain;

/* what is written on the terminal */
static pthread_mutex_t seen_lock = PTHREAD_MUTEX_INITIALIZER;
static char seen[262144];
static size_t seen_len;

static void *drain_main(void *arg)
{
	int fd = (int)(intptr_t)arg;
	char buf[4096];
	ssize_t n;

	while ((n = read(fd, buf, sizeof(buf))) > 0) {
		pthread_mutex_lock(&seen_lock);
		if (seen_len + n < sizeof(seen)) {
			memcpy(seen + seen_len, buf, n);
			seen_len += n;
			seen[seen_len] = 0;
		}
		pthread_mutex_unlock(&seen_lock);
	}
	return NULL;
}

/* what was written since the last time: waits for a mark at the end */
static void j_seen(void)
{
	static const char mark[] = "\033<END>";
	char *p = NULL, *s, *d;
	int i;

	fputs(mark, fout);
	fflush(fout);
	for (i = 0; i < 10000 && p == NULL; i++) {
		pthread_mutex_lock(&seen_lock);
		p = strstr(seen, mark);
		pthread_mutex_unlock(&seen_lock);
		if (p == NULL)
			usleep(i < 100 ? 50 : 1000);
	}
	if (p == NULL)
		exit(5);
	*p = 0;
	/* as lines */
	for (s = d = seen; *s; s++)
		if (*s != '\r')
			*d++ = *s;
	*d = 0;
	j_str(seen);
	seen_len = 0;
	seen[0] = 0;
}

static void ed_close(void)
{
	ec_editline_free(ed);
	ed = NULL;
	if (fin != NULL)
		fclose(fin);
	if (fout != NULL)
		fclose(fout);
	if (ferr != NULL)
		fclose(ferr);
	fin = fout = ferr = NULL;
	if (isatty_)
		pthread_join(drain, NULL);
	isatty_ = 0;
	seen_len = 0;
	seen[0] = 0;
	if (feed >= 0)
		close(feed);
	feed = -1;
	outpos = 0;
}

/* what was written on the output since the last time */
static void j_out(void)
{
	char buf[65536];
	size_t n;

	fflush(fout);
	if (isatty_) {
		j_seen();
		return;
	}
	fseek(fout, outpos, SEEK_SET);
	n = fread(buf, 1, sizeof(buf) - 1, fout);
	buf[n] = 0;
	outpos += n;
	fseek(fout, 0, SEEK_END);
	j_str(buf);
}

static void j_line(void)
{
	const LineInfo *li = el_line(ec_editline_get_el(ed));
	char *s = strndup(li->buffer, li->lastchar - li->buffer);

	printf(",\"line\":");
	j_str(s);
	printf(",\"pos\":%d", (int)(li->cursor - li->buffer));
	free(s);
}

/* the entries of the history file, most recent last */
static void j_hist(void)
{
	char line[4096];
	int n = 0, c;
	FILE *f = fopen(hist, "r");
	char *p, *o;

	printf(",\"hist\":[");
	while (f != NULL && fgets(line, sizeof(line), f) != NULL) {
		line[strcspn(line, "\n")] = 0;
		if (n++ == 0)
			continue; /* header */
		/* vis(3) encoding: \ooo, \s and \\ */
		for (p = o = line; *p; ) {
			if (*p == '\\' && p[1] >= '0' && p[1] <= '3') {
				c = (p[1] - '0') * 64 + (p[2] - '0') * 8 + p[3] - '0';
				*o++ = c;
				p += 4;
			} else if (*p == '\\' && p[1] == '\\') {
				*o++ = '\\';
				p += 2;
			} else
				*o++ = *p++;
		}
		*o = 0;
		if (n > 2)
			putchar(',');
		j_str(line);
	}
	putchar(']');
	if (f != NULL)
		fclose(f);
}

static void j_helps(struct ec_editline_help *h, ssize_t n)
{
	ssize_t i;

	printf(",\"helps\":[");
	for (i = 0; i < n; i++) {
		printf("%s{\"d\":", i ? "," : "");
		j_str(h[i].desc);
		printf(",\"h\":");
		j_str(h[i].help);
		putchar('}');
	}
	putchar(']');
}

static void ed_open(struct cmd *c) /* EN fail node flags tty */
{
	int p[2], m, s;

	if (feed >= 0)
		ed_close();
	isatty_ = arg_int(c->w[4]);
	if (isatty_) {
		struct winsize ws = { 24, 80, 0, 0 };
		if (openpty(&m, &s, NULL, NULL, &ws) < 0)
			exit(5);
		p[0] = s;
		p[1] = m;
	} else if (pipe(p) < 0)
		exit(5);
	fin = fdopen(p[0], "r");
	setvbuf(fin, NULL, _IONBF, 0);
	feed = p[1];
	fout = isatty_ ? fdopen(dup(p[0]), "w") : tmpfile();
	ferr = tmpfile();
	if (isatty_ && pthread_create(&drain, NULL, drain_main, (void *)(intptr_t)feed) != 0)
		exit(5);
	if (fout == NULL || ferr == NULL)
		exit(5);
	fail_at = arg_int(c->w[1]);
	ed = ec_editline("drv", fin, fout, ferr, arg_int(c->w[3]));
	fail_at = 0;
	if (ed != NULL)
		ec_editline_set_node(ed, g_get(arg_int(c->w[2])));
}

/* type on the keyboard: the terminal itself does nothing of it */
static void type_in(const char *s)
{
	struct termios t;

	if (isatty_) {
		if (tcgetattr(fileno(fin), &t) < 0)
			exit(5);
		t.c_lflag &= ~(ECHO | ECHOE | ECHOK | ECHONL | ICANON);
		if (tcsetattr(fileno(fin), TCSANOW, &t) < 0)
			exit(5);
	}
	if (write(feed, s, strlen(s)) < 0)
		exit(5);
}

static int do_edit(struct cmd *c)
{
	const char *w = c->w[0];
	long fail = arg_int(c->w[1]);
	char *s = NULL, *s2 = NULL, *ret = NULL;
	struct ec_editline_help *helps = NULL;
	ssize_t nh = 0;
	long r = 0;
	int e, width = 0, pos = -7;
	char **ms = NULL;
	ssize_t nm = 0, mi;

	errno = 0;
	fail_fired = 0;
	if (!strcmp(w, "NA")) { /* NA fail node help: set its help */
		ec_dict_set(ec_node_attrs(g_get(arg_int(c->w[2]))), "help",
			strcmp(c->w[3], "x") ? arg_str(c->w[3]) : strdup(""), free);
		return 1;
	}
	if (!strcmp(w, "EN")) {
		ed_open(c);
		if (ed == NULL) {
			printf("{\"o\":\"ed\",\"r\":-1,\"f\":%ld}\n", fail_fired);
			return 1;
		}
	} else if (ed == NULL) {
		printf("{\"o\":\"ed\",\"r\":-9,\"f\":0}\n");
		return 1;
	} else if (!strcmp(w, "EI")) { /* EI fail text: insert at the cursor */
		s = arg_str(c->w[2]);
		r = el_insertstr(ec_editline_get_el(ed), s);
	} else if (!strcmp(w, "EM")) { /* EM fail n: move the cursor */
		r = el_cursor(ec_editline_get_el(ed), arg_int(c->w[2]));
	} else if (!strcmp(w, "ED")) { /* ED fail n: delete before the cursor */
		el_deletestr(ec_editline_get_el(ed), arg_int(c->w[2]));
	} else if (!strcmp(w, "ET")) { /* ET fail char: complete */
		fail_at = fail;
		r = ec_editline_complete(ec_editline_get_el(ed), arg_int(c->w[2]));
	} else if (!strcmp(w, "EL")) { /* EL fail trim: current line */
		fail_at = fail;
		ret = ec_editline_curline(ed, arg_int(c->w[2]));
		r = ret == NULL ? -1 : 0;
	} else if (!strcmp(w, "EH")) { /* EH fail line full: helps */
		s = arg_str(c->w[2]);
		s2 = arg_str(c->w[3]);
		fail_at = fail;
		r = nh = ec_editline_get_helps(ed, s, s2, &helps);
	} else if (!strcmp(w, "ES")) { /* ES fail: suggestions */
		fail_at = fail;
		r = nh = ec_editline_get_suggestions(ed, &helps, &ret, &pos);
	} else if (!strcmp(w, "EK")) { /* EK fail line: proposals for a line, and what they have in common */
		struct ec_comp *cmpl;

		s = arg_str(c->w[2]);
		cmpl = ec_complete(ec_editline_get_node(ed), s);
		r = cmpl == NULL ? -1 : 0;
		if (cmpl != NULL) {
			r = nm = ec_editline_get_completions(cmpl, &ms);
			fail_at = fail;
			ret = ec_editline_append_chars(cmpl);
			fail_at = 0;
		}
		ec_comp_free(cmpl);
	} else if (!strcmp(w, "EC") || !strcmp(w, "EX")) { /* EC/EX fail words...: show columns, helps */
		char *v[1024];
		int i, n = c->n - 2;

		for (i = 0; i < n; i++)
			v[i] = arg_str(c->w[i + 2]);
		if (w[1] == 'C')
			r = ec_editline_print_cols(ed, (const char * const *)v, n);
		else {
			struct ec_editline_help *h = calloc(n, sizeof(*h));
			for (i = 0; i < n / 2; i++) {
				h[i].desc = v[2 * i];
				h[i].help = v[2 * i + 1];
			}
			r = ec_editline_print_helps(ed, h, n / 2);
			free(h);
		}
		for (i = 0; i < n; i++)
			free(v[i]);
	} else if (!strcmp(w, "EP")) { /* EP fail prompt esc */
		s = arg_str(c->w[2]);
		fail_at = fail;
		if (arg_int(c->w[3]))
			r = ec_editline_set_prompt_esc(ed, s, '\t');
		else
			r = ec_editline_set_prompt(ed, s);
	} else if (!strcmp(w, "EF")) { /* EF fail size file: history */
		if (dir[0] == 0) {
			snprintf(dir, sizeof(dir), "/tmp/ecv-hist-XXXXXX");
			if (mkdtemp(dir) == NULL)
				exit(5);
			snprintf(hist, sizeof(hist), "%s/history", dir);
		}
		fail_at = fail;
		r = ec_editline_set_history(ed, arg_int(c->w[2]),
				arg_int(c->w[3]) ? hist : NULL);
	} else if (!strcmp(w, "EG")) { /* EG fail text: read a line */
		s = arg_str(c->w[2]);
		if (s != NULL) {
			type_in(s);
		} else { /* end of file */
			close(feed);
			feed = open("/dev/null", O_RDONLY);
		}
		fail_at = fail;
		ret = ec_editline_gets(ed);
		r = ret == NULL ? -1 : 0;
	} else if (!strcmp(w, "EQ")) { /* EQ fail node text: read and parse */
		struct ec_pnode *p;

		s = arg_str(c->w[3]);
		type_in(s);
		fail_at = fail;
		p = ec_editline_parse(ed, g_get(arg_int(c->w[2])));
		fail_at = 0;
		r = p == NULL ? -1 : ec_pnode_matches(p);
		ec_pnode_free(p);
	} else
		return 0;
	e = errno;
	fail_at = 0;
	if (!isatty_)
		el_get(ec_editline_get_el(ed), EL_GETTC, "co", &width, (void *)0);
	printf("{\"o\":\"ed\",\"r\":%ld,\"f\":%ld,\"e\":%d,\"w\":%d,\"p\":%d,\"ret\":", r, fail_fired, e != 0, width, pos);
	j_str(ret);
	j_line();
	printf(",\"nd\":%d,\"ms\":[", g_idx(ec_editline_get_node(ed)));
	for (mi = 0; mi < nm; mi++) {
		printf(mi ? "," : "");
		j_str(ms[mi]);
	}
	putchar(']');
	ec_editline_free_completions(ms, nm < 0 ? 0 : nm);
	j_helps(helps, nh);
	j_hist();
	printf(",\"out\":");
	j_out();
	printf("}\n");
	ec_editline_free_helps(helps, nh < 0 ? 0 : nh);
	ec_free(ret);
	free(s);
	free(s2);
	return 1;
}

int area_edit(struct cmd *c)
{
	if (c->n < 2 || (c->w[0][0] != 'E' && strcmp(c->w[0], "NA")) || !strcmp(c->w[0], "EV"))
		return 0;
	return do_edit(c);
}

void area_edit_reset(void)
{
	ed_close();
	if (dir[0]) {
		unlink(hist);
		rmdir(dir);
		dir[0] = hist[0] = 0;
	}
}
