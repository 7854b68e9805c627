/* The command line: options, exit codes, and what is handed to the analysis. */
#include "vf.h"
#include <stdarg.h>
#include <getopt.h>
#include <fts.h>
#include "check_hooks.h"
#include "color.h"
#include "file_list.h"
#include "maps.h"
#include "selint_config.h"
#include "startup.h"
#include "string_list.h"
#include "util.h"
/*@lines none
@*/
extern int verbose_flag;
int yydebug;
int selint_main(int argc, char **argv);
int vf_quiet(const char *f, ...) { (void)f; return 0; }
int vf_quietv(const char *f, va_list a) { (void)f; (void)a; return 0; }
int vf_quiet2(const char *s) { (void)s; return 0; }
struct policy_node;
int vf_nofree(struct policy_node *n) { (void)n; return 0; }
static bool isatty_, cfg_readable, cfg_ok;
int vf_isatty(int fd) { (void)fd; return isatty_; }
static char cfg_name[8], cfg_sev;
static unsigned n_access, n_cfg;
static void copy(char *d, const char *s, unsigned n)
{
	unsigned i = 0;
	for (; s[i] && i < n; i++) d[i] = s[i];
	for (; i <= n; i++) d[i] = '\0';
}
int vf_access(const char *p, int m) { (void)p; (void)m; n_access++; return cfg_readable ? 0 : -1; }
static struct string_list *cfg_e, *cfg_d, *cfg_fc;
static int cfg_src = -1;
enum selint_error parse_config(const char *f, int src, char *sev, struct string_list **d, struct string_list **e, struct string_list **fc, struct config_check_data *ccd)
{
	(void)ccd;
	n_cfg++;
	cfg_src = src;
	copy(cfg_name, f, 7);
	if (!cfg_ok) return SELINT_CONFIG_PARSE_ERROR;
	*sev = cfg_sev; *d = cfg_d; *e = cfg_e; *fc = cfg_fc;
	return SELINT_SUCCESS;
}
void free_selint_config(struct config_check_data *c) { (void)c; }
static unsigned n_avs, n_mods, n_spt, n_avk, n_modn, n_devel;
static bool load_ok;
static enum selint_error lr(void) { return load_ok ? SELINT_SUCCESS : SELINT_IO_ERROR; }
static char f_avs[24], f_mods[24], f_spt[24];
enum selint_error load_access_vectors_kernel(const char *p) { (void)p; n_avk++; return lr(); }
enum selint_error load_access_vectors_source(const char *p) { n_avs++; copy(f_avs, p, 23); return lr(); }
void load_modules_normal(void) { n_modn++; }
enum selint_error load_modules_source(const char *p) { n_mods++; copy(f_mods, p, 23); return lr(); }
enum selint_error load_obj_perm_sets_source(const char *p) { n_spt++; copy(f_spt, p, 23); return lr(); }
enum selint_error load_devel_headers(struct policy_file_list *c) { (void)c; n_devel++; return lr(); }
static struct checks ck0;
static unsigned n_reg, n_run, n_sum;
static bool reg_ok, reg_ce, reg_cd, order_ok = true;
static int reg_only;
static char reg_level;
static bool lists_ok, loads_done(void), list_is(const struct string_list *l, char m);
struct checks *register_checks(char level, const struct string_list *ce, const struct string_list *cd, const struct string_list *le, const struct string_list *ld, int only)
{
	n_reg++;
	order_ok = order_ok && n_run == 0 && loads_done();
	lists_ok = list_is(le, 'e') && list_is(ld, 'd');
	reg_level = level; reg_ce = ce == cfg_e; reg_cd = cd == cfg_d; reg_only = only;
	if (!reg_ok) return NULL;
	struct checks *ck = calloc(1, sizeof *ck);
	return ck;
}
static enum selint_error run_res;
static bool finding, fc_macros_ok, ccd_ok = true;
#define MAXF 4
static void names(unsigned k, struct policy_file_list *l);
enum selint_error run_analysis(struct checks *ck, struct policy_file_list *te, struct policy_file_list *ifs, struct policy_file_list *fc, struct policy_file_list *cte, struct policy_file_list *cif, const struct string_list *custom_fc, const struct config_check_data *ccd)
{
	n_run++;
	(void)ck;
	names(0, te); names(1, ifs); names(2, fc); names(3, cte); names(4, cif);
	fc_macros_ok = custom_fc == (n_cfg ? cfg_fc : NULL) && ccd != NULL;
	static const enum decl_flavor dflt[6] = { DECL_BOOL, DECL_CLASS, DECL_ROLE, DECL_ATTRIBUTE_ROLE, DECL_ATTRIBUTE, DECL_TYPE };
	if (ccd != NULL && !n_cfg) {
		ccd_ok = ccd->order_conf == ORDER_LAX && ccd->ordering_requires_same_flavor && ccd->skip_checking_generated_fcs && !ccd->custom_te_simple_macros;
		for (unsigned i = 0; i < 6; i++) ccd_ok = ccd_ok & (ccd->order_requires[i] == dflt[i]);
	}
	found_issue = finding;
	return run_res;
}
void display_run_summary(const struct checks *ck) { (void)ck; n_sum++; }

#ifdef VF_SYMBOLIC
char *optarg;
int optind = 1, opterr, optopt;
#endif
static void check_end(int code);
void vf_exit(int code) { check_end(code); vf_stop(); }
/* what each file list holds: count and, per entry, the kind of path (see paths) */
static unsigned cnt[5];

#if CASE < 2
/* ------------------------------------------------------------- options */
#define NPATH (CASE == 0 ? 1 : 0)
#ifndef NITEM
#define NITEM 3
#endif
#define NI1 (NITEM ? NITEM : 1)
static void names(unsigned k, struct policy_file_list *l)
{
	cnt[k] = 0;
	for (struct policy_file_node *n = l->head; n; n = n->next) cnt[k]++;
}
static const char *const longs[] = { "", "config", "context", "debug-parser", "disable", "enable", "fail", "only-enabled", "help", "level", "recursive", "source", "summary", "color", "scan-hidden-dirs", "summary-only", "version", "verbose", "bogus" };
#define NLONG (sizeof longs / sizeof longs[0])
static const char shorts[] = "cdeEFhlrsSVvx";
static unsigned lopt[NI1];            /* index into longs, 0: a short option */
static char sopt[NI1];
static char a0[6], a1[6], a2[6], a3[6];
static char *const arg[4] = { a0, a1, a2, a3 };
static bool wants(unsigned k) { unsigned l = lopt[k]; char s = sopt[k]; return l ? l == 1 || l == 2 || l == 4 || l == 5 || l == 9 || l == 13 : s == 'c' || s == 'd' || s == 'e' || s == 'l'; }
/* the option's short letter; letters of our own for the ones without */
static char meaning(unsigned k)
{
	static const char m[] = " cXDdeFEhlrsSCHOVv?";
	return lopt[k] ? m[lopt[k]] : sopt[k] == 'x' ? '?' : sopt[k];
}
#ifdef VF_SYMBOLIC
static unsigned item;
/* getopt_long as documented, on the option script instead of its text; the
 * tables are the repository's */
int getopt_long(int argc, char *const *argv, const char *so, const struct option *lo, int *ind)
{
	(void)argv; (void)ind;
	optind = argc - NPATH;
	if (item >= NITEM) return -1;
	unsigned k = item++;
	optarg = NULL;
	if (lopt[k]) {
		int r = '?';
		for (unsigned j = 1; j < NLONG; j++)
			for (unsigned i = 0; lo[i].name; i++)
				if (vf_eq(lo[i].name, longs[j])) {
					if (lopt[k] == j) {
						VF_ASSERT((lo[i].has_arg == required_argument) == wants(k), "options take the documented arguments");
						if (lo[i].has_arg == required_argument) optarg = arg[k];
						if (lo[i].flag) { *lo[i].flag = lo[i].val; r = 0; } else r = lo[i].val;
					}
				}
		return r;
	}
	for (unsigned i = 0; so[i]; i++)
		if (so[i] == sopt[k] && so[i] != ':') {
			VF_ASSERT((so[i + 1] == ':') == wants(k), "options take the documented arguments");
			if (so[i + 1] == ':') optarg = arg[k];
			return so[i];
		}
	return '?';
}
#endif
static char *av[2 * NITEM + 3];
static unsigned ac;
static FTSENT ent, ctxent, dirent_;
static char tepath[] = "d/a.te", ctxpath[] = "c/b.if";
static unsigned opens, pos_, ctx_opens;
static bool roots_ok = true;
FTS *vf_fts_open(char *const *p, int o, int (*c)(const FTSENT **, const FTSENT **))
{
	(void)c;
	pos_ = 0;
	if (opens++ == 0) roots_ok = roots_ok && NPATH == 1 && vf_eq(p[0], "d") && p[1] == NULL;
	else { ctx_opens++; roots_ok = roots_ok && p[1] == NULL; }
	roots_ok = roots_ok && (o & FTS_PHYSICAL);
	return (FTS *)(void *)&opens;
}
FTSENT *vf_fts_read(FTS *f)
{
	(void)f;
	if (pos_++) return NULL;
	FTSENT *e = opens == 1 ? &ent : &ctxent;
	e->fts_path = opens == 1 ? tepath : ctxpath;
	e->fts_pathlen = 6;
	e->fts_info = FTS_F;
	e->fts_namelen = 4;
	e->fts_parent = &dirent_;
	memcpy(e->fts_name, "b.if", 1);
	return e;
}
int vf_fts_close(FTS *f) { (void)f; return 0; }
int vf_fts_set(FTS *f, FTSENT *e, int o) { (void)f; (void)e; (void)o; return 0; }
static bool list_is(const struct string_list *l, char m)
{
	bool ok = true;
	for (unsigned k = 0; k < NITEM; k++)
		if (meaning(k) == m) {
			if (!l) return false;
			ok = ok & vf_eq(l->string, arg[k]);
			l = l->next;
		}
	return ok && !l;
}
static bool x_src;
static bool loads_done(void) { return x_src || (n_avk && n_modn && n_devel); }
static int expect_exit = -1;
static bool x_only, x_fail, x_sum, x_quiet, x_verb, x_dbg, ended;
static unsigned x_color, x_ctx, x_e, x_d;
static char x_level;
static const char *x_cfg;
static void check_end(int code)
{
	ended = true;
	VF_ASSERT(code == expect_exit, "the exit code is the documented one: 0, or 64 for wrong usage, 78 for a bad configuration, 70 for a failed run, 65 for findings with -F");
	VF_ASSERT((n_run == 1) == (expect_exit == 0 || expect_exit == 65 || expect_exit == 70) || n_run == 0, "the analysis runs at most once");
#if NITEM
	if (code == 64 && n_access == 0) VF_WITNESS("usage error in an option");
#endif
	if (code == 78 && n_cfg) VF_WITNESS("bad configuration");
}
void vf_main(void)
{
	static char prog[] = "selint", dir[] = "d", cfgstr[] = "cfg";
	(void)cfgstr;
	av[ac++] = prog;
	for (unsigned k = 0; k < NITEM; k++) {
		lopt[k] = vf_u(NLONG);
		sopt[k] = shorts[vf_u(sizeof shorts - 1)];
		if (meaning(k) == 'C' && vf_b()) { unsigned c = vf_u(3); copy(arg[k], c == 0 ? "on" : c == 1 ? "off" : "auto", 5); }
		else vf_str(arg[k], 5);
	}
#ifdef VF_SYMBOLIC
	ac = 2 * NITEM + 1;
	for (unsigned k = 1; k < ac; k++) av[k] = prog;
#else
	for (unsigned k = 0; k < NITEM; k++) {
		char *b = calloc(1, 64);
		if (lopt[k]) {
			sprintf(b, "--%s%s%s", longs[lopt[k]], wants(k) ? "=" : "", wants(k) ? arg[k] : "");
			av[ac++] = b;
		} else {
			sprintf(b, "-%c", sopt[k]);
			av[ac++] = b;
			if (wants(k)) av[ac++] = arg[k];
		}
	}
#endif
	if (NPATH) av[ac++] = dir;
	av[ac] = NULL;
	isatty_ = vf_b(); cfg_readable = vf_b(); cfg_ok = vf_b(); load_ok = vf_b(); reg_ok = vf_b(); finding = vf_b();
	cfg_sev = (char)vf_nd_raw();
	VF_ASSUME(is_valid_severity(cfg_sev));
	run_res = vf_b() ? SELINT_SUCCESS : vf_b() ? SELINT_PARSE_ERROR : SELINT_OUT_OF_MEM;
	/* the lists of the configuration */
	cfg_e = sl_from_str("W-001"); cfg_d = sl_from_str("W-002"); cfg_fc = sl_from_str("m");
	/* what the options mean, in order */
	for (unsigned k = 0; k < NITEM; k++) {
		if (expect_exit >= 0) continue;
		char m = meaning(k);
		if (m == '?') expect_exit = 64;
		if (m == 'h' || m == 'V') expect_exit = 0;
		if (m == 'c') x_cfg = arg[k];
		if (m == 'X') { x_ctx++; x_src = true; }
		if (m == 'D') x_dbg = true;
		if (m == 'd') x_d++;
		if (m == 'e') x_e++;
		if (m == 'F') x_fail = true;
		if (m == 'E') x_only = true;
		if (m == 'l') { x_level = arg[k][0]; if (!is_valid_severity(x_level)) expect_exit = 64; }
		if (m == 's') x_src = true;
		if (m == 'S') x_sum = true;
		if (m == 'O') x_sum = x_quiet = true;
		if (m == 'v') x_verb = true;
		if (m == 'C') { if (vf_eq(arg[k], "on")) x_color = 2; else if (vf_eq(arg[k], "off")) x_color = 1; else if (vf_eq(arg[k], "auto")) x_color = 0; else expect_exit = 64; }
	}
	bool stopped = expect_exit >= 0, cfg_used = false;
	if (expect_exit < 0) {
		if (x_cfg && !cfg_readable) expect_exit = 64;
		else {
			cfg_used = cfg_readable;
			if (cfg_used && !cfg_ok) expect_exit = 78;
			else if (x_only && !x_e) expect_exit = 64;
			else if (!NPATH) expect_exit = 64;
			else if (!reg_ok) expect_exit = 78;
			else if (run_res != SELINT_SUCCESS) expect_exit = 70;
			else expect_exit = x_fail && finding ? 65 : 0;
		}
	}
	int r = selint_main((int)ac, av);
	check_end(r);
	VF_ASSERT(!stopped, "after a usage error, -h or -V nothing else happens");
	VF_ASSERT(roots_ok, "the given paths are searched, without following links");
	char want = x_level ? x_level : cfg_used ? cfg_sev : 'C';
	VF_ASSERT(n_reg == 1 && reg_level == want, "the level is that of the command line, else of the configuration, else C");
	VF_ASSERT((reg_only != 0) == x_only, "only-enabled mode is passed on");
	VF_ASSERT(!cfg_used || (reg_ce && reg_cd), "the configuration's enabled and disabled checks are passed on");
	VF_ASSERT(lists_ok, "the IDs given with -e and -d are passed on, each list in order");
	VF_ASSERT(order_ok, "checks are set up after classes, permissions and modules are loaded, and before the analysis");
	VF_ASSERT(n_run == (reg_ok ? 1u : 0u), "the analysis runs exactly once, unless the checks cannot be set up");
	VF_ASSERT(n_cfg == (cfg_used ? 1u : 0u) && (!cfg_used || cfg_src == x_src), "the configuration is read in the right mode");
	if (x_cfg) VF_ASSERT(vf_eq(cfg_name, x_cfg), "the last -c names the configuration file");
	VF_ASSERT(n_sum == (x_sum && reg_ok && run_res == SELINT_SUCCESS ? 1u : 0u), "the summary is shown exactly after a successful run with -S or --summary-only");
	VF_ASSERT((suppress_output != 0) == x_quiet, "findings are suppressed exactly with --summary-only");
	VF_ASSERT((verbose_flag != 0) == x_verb && (yydebug != 0) == x_dbg, "verbose and parser debugging are switched on exactly on request");
	VF_ASSERT((color_reset()[0] != '\0') == (x_color == 2 || (x_color == 0 && isatty_)), "colour follows --color, by default the terminal");
	VF_ASSERT(ctx_opens == x_ctx && (!reg_ok || (cnt[0] == 1 && cnt[4] == x_ctx)), "each context path is searched once and its files are context only");
	VF_ASSERT(x_src ? n_avk + n_modn + n_devel == 0 : n_avk == 1 && n_modn == 1 && n_devel == 1, "the running system is consulted exactly outside source mode");
	VF_ASSERT(n_avs + n_mods + n_spt == 0, "files that were not found are not loaded");
	if (reg_ok) VF_ASSERT(fc_macros_ok, "the configuration reaches the analysis");
	if (reg_ok) VF_ASSERT(ccd_ok, "without a configuration file the documented defaults reach the analysis");
#if NPATH && NITEM > 1
	if (r == 65 && x_quiet) VF_WITNESS("findings fail the run"); else if (r == 0 && x_only && x_e) VF_WITNESS("plain run");
#elif NPATH
	if (r == 0) VF_WITNESS("plain run");
#endif
}
#else
/* ------------------------------------------------------- finding files */
/* the entries' names; ? is any byte */
#if CASE == 2
#define NE 2
#define NX 0
static const char *const pattern[] = { "????", "????" };
#elif CASE == 7
/* files given themselves, not below a directory */
#define OFF 0
#define NE 2
#define NX 0
static const char *const pattern[] = { "????", "???" };
#elif CASE == 3
#define NE 2
#define NX 0
static const char *const pattern[] = { "???", "?" };
#elif CASE == 4
#define NE 1
#define NX 2
static const char *const pattern[] = { "????", "????", "?.if" };
#elif CASE == 5
#define NE 4
#define NX 2
static const char *const pattern[] = { "modules.conf", "access_vectors", "modules.conf", "obj_perm_sets.spt", "modules.conf", "access_vectors" };
#else
#define NE 2
#define NX 4
static const char *const pattern[] = { "a.te", "obj_perm_sets.spt", "modules.conf", "access_vectors", "modules.conf", "a.te" };
#endif
#define PL 22
#ifndef OFF
#define OFF 2            /* length of the directory part */
#endif
static char p0[PL], p1[PL], p2[PL], p3[PL], p4[PL], p5[PL];
static char *const path[6] = { p0, p1, p2, p3, p4, p5 };
static unsigned plen[6], info[6];
static union { FTSENT e; char room[sizeof(FTSENT) + PL]; } en[6], up;
static unsigned opens, at, end_;
static bool skip[6], skipped_other, src, rec, hid, roots_ok = true;
/* what each file list holds, in order: indices of entries, 9 for something else */
static unsigned got[5][6], cnt[5];
static void names(unsigned k, struct policy_file_list *l)
{
	cnt[k] = 0;
	for (struct policy_file_node *n = l->head; n; n = n->next) {
		if (cnt[k] >= 6) break;
		unsigned g = 9;
		for (unsigned i = 0; i < NE + NX; i++) if (g == 9 && vf_eq(path[i], n->file->filename)) g = i;
		got[k][cnt[k]++] = g;
	}
}
FTS *vf_fts_open(char *const *p, int o, int (*c)(const FTSENT **, const FTSENT **))
{
	(void)c;
	if (opens++ == 0) { roots_ok = roots_ok && vf_eq(p[0], "d"); at = 0; end_ = NE; }
	else { roots_ok = roots_ok && vf_eq(p[0], "c"); at = NE; end_ = NE + NX; }
	roots_ok = roots_ok && p[1] == NULL && (o & FTS_PHYSICAL);
	return (FTS *)(void *)&opens;
}
FTSENT *vf_fts_read(FTS *f)
{
	(void)f;
	if (at >= end_) return NULL;
	return &en[at++].e;
}
int vf_fts_close(FTS *f) { (void)f; return 0; }
int vf_fts_set(FTS *f, FTSENT *e, int o)
{
	(void)f;
	if (o == FTS_SKIP && at > 0 && e == &en[at - 1].e) skip[at - 1] = true; else skipped_other = true;
	return 0;
}
#ifdef VF_SYMBOLIC
static unsigned item;
int getopt_long(int argc, char *const *argv, const char *so, const struct option *lo, int *ind)
{
	(void)argv; (void)so; (void)ind;
	optind = argc - 1;
	optarg = NULL;
	switch (item++) {
	case 0: return src ? 's' : 'F';
	case 1: return rec ? 'r' : 'F';
	case 2: {
		if (!hid) return 'F';
		for (unsigned i = 0; lo[i].name; i++) if (vf_eq(lo[i].name, "scan-hidden-dirs")) return lo[i].val;
		return '?'; }
	case 3:
		if (!NX) return -1;
		for (unsigned i = 0; lo[i].name; i++) if (vf_eq(lo[i].name, "context")) { static char c[] = "c"; optarg = c; return lo[i].val; }
		return '?';
	}
	return -1;
}
#endif
static bool loads_done(void) { return (src || NX) ? n_avk == 0 : n_avk && n_modn && n_devel; }
static bool list_is(const struct string_list *l, char m) { (void)m; return !l; }
static void check_end(int code) { (void)code; VF_ASSERT(0, "finding files never ends the program"); }
static void name(unsigned k, char dir)
{
	char *p = path[k];
	if (OFF) { p[0] = dir; p[1] = '/'; }
	const char *q = pattern[k];
	unsigned i;
	for (i = 0; q[i]; i++) {
		p[i + OFF] = q[i];
		if (q[i] == '?') { p[i + OFF] = (char)vf_nd_raw(); VF_ASSUME(p[i + OFF] != '/' && p[i + OFF] != '\0'); }
	}
	plen[k] = i + OFF;
	VF_ASSUME(!(p[OFF] == '.' && p[OFF + 1] == '.'));
	char *n = (char *)&en[k] + offsetof(FTSENT, fts_name);
	for (i = OFF; i < PL; i++) n[i - OFF] = p[i];
	en[k].e.fts_path = p;
	en[k].e.fts_pathlen = (unsigned short)plen[k];
	en[k].e.fts_namelen = (unsigned short)(plen[k] - OFF);
	en[k].e.fts_parent = &up.e;
	info[k] = vf_u(3);
	en[k].e.fts_info = info[k] == 0 ? FTS_F : info[k] == 1 ? FTS_D : FTS_DP;
}
static char kind(unsigned k)            /* what the name makes of an entry */
{
	const char *p = path[k];
	unsigned n = plen[k];
	if (n > 3 && p[n - 3] == '.' && p[n - 2] == 't' && p[n - 1] == 'e') return 't';
	if (n > 3 && p[n - 3] == '.' && p[n - 2] == 'i' && p[n - 1] == 'f') return 'i';
	if (n > 3 && p[n - 3] == '.' && p[n - 2] == 'f' && p[n - 1] == 'c') return 'f';
	if ((src || NX) && vf_eq(p + OFF, "modules.conf")) return 'm';
	if ((src || NX) && vf_eq(p + OFF, "obj_perm_sets.spt")) return 'p';
	if ((src || NX) && vf_eq(p + OFF, "access_vectors")) return 'a';
	return '?';
}
static bool list_eq(unsigned k, char c, unsigned from, unsigned to)
{
	bool ok = true;
	unsigned n = 0;
	for (unsigned i = from; i < to; i++) {
		if (kind(i) != c) continue;
		/* equal paths are told apart by position only */
		ok = ok & (n < cnt[k]) & (n < 6 && got[k][n] < 9 && vf_eq(path[got[k][n] < 6 ? got[k][n] : 0], path[i]));
		n++;
	}
	return ok & (n == cnt[k]);
}
static bool load_is(unsigned n, const char *f, char c)
{
	unsigned w = 9;
	for (unsigned i = 0; i < NE; i++) if (kind(i) == c) w = i;
	for (unsigned i = NE; i < NE + NX; i++) if (w == 9 && kind(i) == c) w = i;
	if (w == 9) return n == 0;
	return n == 1 && vf_eq(f, path[w]);
}
void vf_main(void)
{
	static char prog[] = "selint", dir[] = "d";
	char *av[8];
	src = vf_b(); rec = vf_b(); hid = vf_b(); load_ok = vf_b();
	isatty_ = cfg_readable = cfg_ok = finding = false;
	reg_ok = true;
	memcpy((char *)&up + offsetof(FTSENT, fts_name), "lay", 4);
	for (unsigned k = 0; k < NE; k++) name(k, 'd');
	for (unsigned k = 0; k < NX; k++) name(NE + k, 'c');
	int ac = 0;
	av[ac++] = prog;
#ifdef VF_SYMBOLIC
	for (; ac < 6; ) av[ac++] = prog;
#else
	av[ac++] = src ? "-s" : "-F";
	av[ac++] = rec ? "-r" : "-F";
	av[ac++] = hid ? "--scan-hidden-dirs" : "-F";
	if (NX) { av[ac++] = "--context"; av[ac++] = "c"; }
#endif
	av[ac++] = dir;
	av[ac] = NULL;
	run_res = SELINT_SUCCESS;
	int r = selint_main(ac, av);
	VF_ASSERT(r == 0, "the run ends well, whether or not the support files could be loaded");
	VF_ASSERT(roots_ok && opens == 1 + (NX ? 1 : 0), "the given paths and the context paths are searched, without following links");
	VF_ASSERT(list_eq(0, 't', 0, NE) && list_eq(1, 'i', 0, NE) && list_eq(2, 'f', 0, NE), "every .te, .if and .fc file found is analysed as what it is, in order");
	VF_ASSERT(list_eq(3, 't', NE, NE + NX) && list_eq(4, 'i', NE, NE + NX), "policy and interface files of the context are context, and nothing else is");
	VF_ASSERT(load_is(n_mods, f_mods, 'm') && load_is(n_spt, f_spt, 'p') && load_is(n_avs, f_avs, 'a'), "in source mode the support files found are loaded, those of the context only if there is no other");
	VF_ASSERT((src || NX) ? n_avk + n_modn + n_devel == 0 : n_avk == 1 && n_modn == 1 && n_devel == 1, "the running system is consulted exactly outside source mode");
	bool sk = !skipped_other;
	for (unsigned i = 0; i < NE; i++)
		sk = sk && skip[i] == (kind(i) == '?' && (!rec || (!hid && info[i] == 1 && path[i][OFF] == '.' && path[i][OFF + 1] != '\0')));
	for (unsigned i = NE; i < NE + NX; i++) sk = sk && !skip[i];
	VF_ASSERT(sk, "directories are entered only in recursive mode, hidden ones only on request, context always");
	bool lay = true;
	for (unsigned i = 0; i < NE; i++)
		if (kind(i) == 'i') {
			char m[PL];
			for (unsigned j = OFF; j < PL; j++) m[j - OFF] = j < plen[i] - 3 ? path[i][j] : '\0';
			m[PL - OFF - (OFF ? 0 : 1)] = '\0';
			const char *l = look_up_in_mod_layers_map(m);
			lay = lay && l && vf_eq(l, "lay");
		}
	VF_ASSERT(lay, "each interface file's directory becomes the layer of its module");
	VF_ASSERT(n_run == 1 && order_ok, "support files are loaded before the checks are set up, and these before the analysis");
#if CASE == 2
	if (cnt[0] && cnt[1] && !rec) VF_WITNESS("policy and interface"); else if (cnt[0] == 1 && skip[0] && rec) VF_WITNESS("hidden directory"); else if (cnt[0] == 2) VF_WITNESS("two policies");
#elif CASE == 7
	if (cnt[0] && skip[1]) VF_WITNESS("files themselves");
#elif CASE >= 5
	if (n_mods && n_spt && n_avs && src) VF_WITNESS("all support files");
#elif CASE == 4
	if (cnt[0] && cnt[3] && cnt[4]) VF_WITNESS("with context");
#else
	if (cnt[0] && skip[1]) VF_WITNESS("short names");
#endif
}
#endif
