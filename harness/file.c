/* a scratch directory, in which file names are completed */
#define _GNU_SOURCE
#define _XOPEN_SOURCE 700
#include "drv.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ftw.h>
#include <unistd.h>

static int home = -1;        /* where the driver was started */
static char scratch[32];
static int untyped;          /* readdir() does not tell the type of the files */
static long fault, faults;   /* readdir() fails */

/* instead of the one of the libc */
struct dirent *readdir(DIR *d)
{
	static struct dirent *(*real)(DIR *);
	struct dirent *e;

	if (real == NULL)
		real = (struct dirent *(*)(DIR *))dlsym(RTLD_NEXT, "readdir");
	if (fault > 0 && --fault == 0) {
		faults++;
		errno = EIO;
		return NULL;
	}
	e = real(d);
	if (e != NULL && untyped)
		e->d_type = DT_UNKNOWN;
	return e;
}

static int unlink_cb(const char *p, const struct stat *st, int f, struct FTW *w)
{
	(void)st; (void)f; (void)w;
	return remove(p);
}

static int enter(void)
{
	if (home >= 0)
		return 0;
	home = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
	strcpy(scratch, "scratch.XXXXXX");
	if (home < 0 || mkdtemp(scratch) == NULL || chdir(scratch) < 0)
		exit(3);
	return 0;
}

void area_file_reset(void)
{
	if (home < 0)
		return;
	if (fchdir(home) < 0)
		exit(3);
	nftw(scratch, unlink_cb, 8, FTW_DEPTH | FTW_PHYS);
	close(home);
	home = -1;
	untyped = 0;
	fault = 0;
}

/* only names that stay below the scratch directory */
static int inside(const char *p)
{
	return p[0] != '/' && p[0] != 0 && strstr(p, "..") == NULL;
}

int area_file(struct cmd *c)
{
	const char *k = c->w[0];
	char *p, *to;
	int r = -1, fd;

	if (k[0] != 'F' || k[1] == 0 || k[2] != 0)
		return 0;
	enter();
	if (k[1] == 'M') {            /* FM kind path target */
		p = arg_str(c->w[2]);
		to = arg_str(c->w[3]);
		if (inside(p) && to[0] != '/') {
			if (c->w[1][0] == 'd')
				r = mkdir(p, 0700);
			else if (c->w[1][0] == 'l')
				r = symlink(to, p);
			else if (c->w[1][0] == 'p')
				r = mkfifo(p, 0600);
			else {
				fd = open(p, O_WRONLY | O_CREAT | O_EXCL | O_NOFOLLOW, 0600);
				r = fd < 0 ? -1 : close(fd);
			}
		}
		free(p);
		free(to);
	} else if (k[1] == 'U') {     /* FU path */
		p = arg_str(c->w[1]);
		if (inside(p))
			r = remove(p);
		free(p);
	} else if (k[1] == 'T') {     /* FT untyped */
		untyped = arg_int(c->w[1]);
		r = 0;
	} else if (k[1] == 'E') {     /* FE k: the kth call to readdir() fails */
		faults = 0;
		fault = arg_int(c->w[1]);
		r = 0;
	} else if (k[1] == 'R') {     /* FR: was it called? */
		fault = 0;
		r = faults;
		faults = 0;
	} else
		return 0;
	j_printf("{\"o\":\"f\",\"r\":%d}\n", r);
	return 1;
}
