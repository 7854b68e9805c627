/* Virtual files and the token source shared by the pipeline harnesses.
 * Policy text in a harness's policy blocks is turned into tokens by the
 * repository's own lexer at build time; identifiers named HOLE_x are replaced by
 * the (symbolic) arrays vf_hole_x, and a disable comment naming W-9xx by
 * vf_cmd_x. */
#ifndef WORLD_H
#define WORLD_H
#include "vf.h"
#include "tree.h"
#include "maps.h"
#include "runner.h"
#include "parse_functions.h"
#include "parse.h"
#include "check_hooks.h"
#include "color.h"
#include "string_list.h"
#include "file_list.h"
#include "util.h"
#include "perm_macro.h"

struct vf_tok { int kind; const char *text; unsigned line, last; };
struct vf_vfile { const char *name; const struct vf_tok *toks; const char *const *lines; unsigned nlines; };
struct vf_yyloc { unsigned first_line, first_column, last_line, last_column; };

/* lexer interface used by the grammar */
char *current_lines[LINES_TO_CACHE];
unsigned line_cache_index;
static char vf_noline[1];
static const struct vf_tok *vf_lexpos;
static unsigned vf_opened, vf_closed;

void reset_current_lines(void) { }
int yylex_init(void **s) { *s = NULL; return 0; }
int yylex_destroy(void *s) { (void)s; return 0; }
void yyrestart(FILE *f, void *s)
{
	(void)s;
	for (unsigned i = 0; i < LINES_TO_CACHE; i++) current_lines[i] = vf_noline;
	vf_lexpos = ((const struct vf_vfile *)f)->toks;
}
int yylex(YYSTYPE *v, struct vf_yyloc *l, void *s)
{
	(void)s;
	const struct vf_tok *t = vf_lexpos;
	l->first_line = t->line;
	l->last_line = t->last;
	l->first_column = l->last_column = 1;
	if (t->kind == 0) return 0;
	if (t->text) v->string = strdup(t->text);
	vf_lexpos = t + 1;
	return t->kind;
}

#include "vf_policies.h"            /* generated: vf_tokens_*, vf_vfiles[] */

FILE *vf_fopen(const char *name, const char *mode)
{
	(void)mode;
	for (unsigned i = 0; i < VF_NVFILES; i++)
		if (strcmp(vf_vfiles[i].name, name) == 0) { vf_opened++; return (FILE *)(void *)&vf_vfiles[i]; }
	return NULL;
}
/* lines of a virtual text file (fc, modules.conf, ...); each buffer is exactly
 * as long as its contents, which is all getline promises */
static unsigned vf_linepos[VF_NVFILES];
ssize_t vf_getline(char **lp, size_t *n, FILE *f)
{
	unsigned k = (unsigned)((const struct vf_vfile *)f - vf_vfiles);
	if (vf_linepos[k] >= vf_vfiles[k].nlines) return -1;
	const char *s = vf_vfiles[k].lines[vf_linepos[k]++];
	size_t len = 0;
#ifdef VF_LINELEN                       /* known lengths of symbolic lines */
	len = VF_LINELEN(s);
	if (!len)
#endif
	while (s[len]) len++;
#ifdef VF_LINEBUF                      /* one buffer for all lines */
	char *b = *lp ? *lp : malloc(VF_LINEBUF);
#else
	char *b = malloc(len + 1);
#endif
	for (size_t i = 0; i <= len; i++) b[i] = s[i];
	*lp = b;
	*n = len + 1;
	return (ssize_t)len;
}
int vf_fclose(FILE *f) { (void)f; vf_closed++; return 0; }

static inline struct policy_node *vf_parse(const char *name, enum node_flavor fl)
{
	return parse_one_file(name, fl);
}

static inline struct checks *vf_only(const char *id)
{
	struct string_list *l = sl_from_str(id);
	return register_checks('C', NULL, NULL, l, NULL, 1);
}

static inline struct check_data vf_cd(const char *mod, const char *file, enum file_flavor fl, const struct config_check_data *c)
{
	struct check_data d;
	d.mod_name = (char *)mod;
	d.filename = (char *)file;
	d.flavor = fl;
	d.config_check_data = c;
	return d;
}

/* Does the captured output consist of exactly one finding line for (file, line, id)? */
static inline bool vf_line_ok(const char *file, unsigned line, const char *id)
{
	unsigned fl = 0;
	while (file[fl]) fl++;
	vf_ex_reset();
	vf_ex_str(file);
	vf_ex_chr(':');
	vf_ex_num(line, fl < 22 ? 22 - fl : 0, ' ');
	vf_ex_str(": (");
	vf_ex_chr(id[0]);
	vf_ex_str("): ");
	vf_ex_any();
	vf_ex_str(" (");
	vf_ex_chr(id[0]);
	vf_ex_chr('-');
	vf_ex_num((unsigned)(id[2] - '0') * 100 + (unsigned)(id[3] - '0') * 10 + (unsigned)(id[4] - '0'), 3, '0');
	vf_ex_str(")\n");
	return vf_ex_match();
}

/* Run the registered checks over one node.  Returns whether something was
 * reported; *ok is cleared unless what was reported is exactly one well-formed
 * finding line for this node with this ID. */
static inline bool vf_lint(struct checks *ck, const struct check_data *d, const struct policy_node *n, const char *id, bool *ok)
{
	vf_out_reset();
	found_issue = 0;
	enum selint_error r = call_checks(ck, d, n);
	vf_out_sync();
	bool flagged = vf_out_len != 0;
	*ok = r == SELINT_SUCCESS && flagged == (found_issue != 0);
	if (flagged && !vf_line_ok(d->filename, n->lineno, id)) *ok = false;
	return flagged;
}

/* node number k (0 = first) of the given flavour in document order */
static inline struct policy_node *vf_nth(struct policy_node *ast, enum node_flavor f, unsigned k)
{
	for (struct policy_node *c = ast; c; c = dfs_next(c))
		if (c->flavor == f && k-- == 0) return c;
	return NULL;
}

/* Findings per source line of one file. */
#define VF_LINES 64
static unsigned vf_hits[VF_LINES];
static bool vf_seen[VF_LINES];
static bool vf_sweep_ok = true;
static inline void vf_sweep(struct checks *ck, const struct check_data *d, struct policy_node *ast, const char *id)
{
	for (struct policy_node *c = ast; c; c = dfs_next(c)) {
		bool ok;
		if (vf_lint(ck, d, c, id, &ok)) vf_hits[c->lineno]++;
		vf_sweep_ok = vf_sweep_ok & ok;
	}
}
/* the statement on this line is reported (once) exactly if c */
#define vf_expect(line, c, what) do { vf_seen[line] = true; VF_ASSERT(vf_hits[line] == ((c) ? 1u : 0u), what); } while (0)
/* nothing else is reported, and every report is one well-formed line */
static inline void vf_expect_rest(void)
{
	bool none = true;
	for (unsigned i = 0; i < VF_LINES; i++)
		if (!vf_seen[i]) none = none & (vf_hits[i] == 0);
	VF_ASSERT(none, "no other statement is reported");
	VF_ASSERT(vf_sweep_ok, "each report is one well-formed finding line with file, line, severity and check ID");
}
/* parse the file and run the one check over it */
static inline struct policy_node *vf_run_check(const char *id, const char *file, enum file_flavor fl, const char *mod, const struct config_check_data *ccd)
{
	struct policy_node *ast = vf_parse(file, fl == FILE_TE_FILE ? NODE_TE_FILE : NODE_IF_FILE);
	VF_ASSERT(ast != NULL, "the file is accepted");
	VF_ASSUME(ast != NULL);
	struct check_data d = vf_cd(mod, file, fl, ccd);
	vf_sweep(vf_only(id), &d, ast, id);
	return ast;
}
/* dst := one of n constant strings, chosen by the solver */
static inline unsigned vf_pick(char *dst, const char *const *opt, unsigned n, unsigned max)
{
	unsigned k = vf_u(n);
	for (unsigned i = 0; i < n; i++)
		if (k == i) {
			unsigned j = 0;
			for (; opt[i][j] && j < max; j++) dst[j] = opt[i][j];
			for (; j <= max; j++) dst[j] = '\0';
		}
	return k;
}
#define VF_PICK(dst, ...) ({ static const char *const vf_o[] = { __VA_ARGS__ }; vf_pick(dst, vf_o, sizeof vf_o / sizeof vf_o[0], sizeof(dst) - 1); })
/* any identifier of up to 3 characters (4 for ID4; thorough: 2 more) in a hole */
#ifdef THOROUGH
#define VF_L 2
#else
#define VF_L 0
#endif
#define ID3(x) vf_ident(vf_hole_##x, 1, 3 + VF_L)
#define ID2(x) vf_ident(vf_hole_##x, 1, 2 + VF_L)
#define ID4(x) vf_ident(vf_hole_##x, 1, 4 + VF_L)
#define HO(x) vf_hole_##x
#endif
