/* Conformance driver for libecoli: executes scripts and prints observations. */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <stdbool.h>
#include <errno.h>
#include <ecoli.h>

/* a command line split into words */
struct cmd {
	int n;
	char **w;
};

/* decode a hex word "x666f6f" (malloc'ed), NULL for "-" */
char *arg_str(const char *w);
long arg_int(const char *w);
long long arg_ll(const char *w);

/* JSON output to stdout */
void j_str(const char *s);      /* quoted string, "" if NULL */
void j_printf(const char *fmt, ...);

/* allocation tracking */
extern long live_allocs;        /* number of live ec_malloc'ed areas */
extern long alloc_calls;        /* number of allocation attempts */
extern long fail_at;            /* fail the Nth attempt from now (0: never) */
extern long fail_fired;

/* each area handles the words it knows: returns 1 if handled */
int area_grammar(struct cmd *c);
void area_grammar_reset(void);
int area_cont(struct cmd *c);
void area_cont_reset(void);
int area_misc(struct cmd *c);
void area_misc_reset(void);
int rt_main(int n, char **v);
int area_edit(struct cmd *c);
void area_edit_reset(void);

struct ec_strvec *arg_strvec(struct cmd *c, int first);
void j_ptree(const struct ec_pnode *p);
struct ec_node *g_get(int idx);
int g_register(struct ec_node *n, int own);
void j_cfg(const struct ec_config *v);
extern int g_errno;
struct ec_node *g_make(struct cmd *c);
void g_set(int idx, struct ec_node *n);
void g_drop_last(void);
void j_live(void);
int area_oom(struct cmd *c);
int area_yaml(struct cmd *c);
int area_file(struct cmd *c);
void area_file_reset(void);
int g_idx(const struct ec_node *n);
int area_expr(struct cmd *c);
int area_comp(struct cmd *c);
int area_pnode(struct cmd *c);
void area_pnode_reset(void);
int area_config(struct cmd *c);
void area_config_reset(void);

struct ec_config *arg_cfg(struct cmd *c, int *i);
struct ec_config_schema *arg_schema(struct cmd *c, int *i);
void arg_schema_free(struct ec_config_schema *s);
void j_parse(const struct ec_pnode *p);
void j_completion(const struct ec_comp *p);
int area_keep(struct cmd *c);
void area_keep_reset(void);
int area_intro(struct cmd *c);
int area_text(struct cmd *c);
struct ec_node *user_make(struct cmd *c, const char *type, const char *id);
void user_reset(void);

#endif
