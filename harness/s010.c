/* S-010: permission macros that could be used. */
#include "world.h"
#include "perm_macro.h"
#if CASE == 0
/*@policy m1.te if CASE == 0
policy_module(m1, 1.0)
allow a_t b_t:HOLE_c { HOLE_p HOLE_q HOLE_r };
@*/
#elif CASE == 1
/*@policy m1.te if CASE == 1
policy_module(m1, 1.0)
allow a_t b_t:HOLE_c HOLE_p;
dontaudit a_t b_t:HOLE_c { HOLE_p HOLE_q };
allow a_t b_t:{ HOLE_c dir } { HOLE_p HOLE_q };
optional_policy(`
	allow { a_t c_t } self:HOLE_c { HOLE_p HOLE_q };
')
auditallow a_t b_t:HOLE_c { HOLE_p HOLE_q };
neverallow a_t b_t:HOLE_c { HOLE_p HOLE_q };
@*/
#else
/*@policy m1.te if CASE == 2
policy_module(m1, 1.0)
allow a_t b_t:file { HOLE_p HOLE_q mounton };
allow a_t b_t:file HOLE_p;
@*/
#endif
/* the text of the suggestion is not looked at: it is only built natively */
#include <stdarg.h>
void *vf_pm_realloc(void *p, size_t n)
{
#ifdef VF_SYMBOLIC
	(void)n;
	return p;
#else
	return realloc(p, n);
#endif
}
void *vf_pm_memcpy(void *d, const void *s, size_t n)
{
#ifdef VF_SYMBOLIC
	(void)s; (void)n;
	return d;
#else
	return memcpy(d, s, n);
#endif
}
int vf_pm_snprintf(char *d, size_t n, const char *f, ...)
{
#ifdef VF_SYMBOLIC
	(void)f;
	if (d && n) d[0] = '\0';
	return 0;
#else
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(d, n, f, ap);
	va_end(ap);
	return r;
#endif
}
/* plain permissions: no list of the class jobs names a macro */
#include "maps.h"
const struct string_list *vf_pm_lookup(const char *name)
{
#if defined(VF_SYMBOLIC) && CASE == 0
	(void)name;
	return NULL;
#else
	return look_up_in_permmacros_map(name);
#endif
}
/* none of these is implied by another */
static const char *const perm[] = { "read", "write", "open", "relabelto", "mounton", "bogus" };
static bool has(const struct string_list *l, const char *s) { bool r = false; for (; l; l = l->next) r = r || vf_eq(l->string, s); return r; }
static struct string_list *two(const char *a, const char *b)
{
	struct string_list *l = sl_from_str(a);
	l->next = sl_from_str(b);
	return l;
}
static struct string_list *three(const char *a, const char *b, const char *c)
{
	struct string_list *l = two(a, b);
	l->next->next = sl_from_str(c);
	return l;
}
void vf_main(void)
{
#define P(x) vf_pick(HO(x), perm, 6, 9)
	P(p); P(q);
#if CASE == 0
	P(r);
	static const char *const suf[] = { "dir", "file", "lnk_file", "chr_file", "term", "blk_file", "sock_file", "fifo_file", "process" };
	static const unsigned num[] = { 0, 1, 2, 3, 3, 5, 6, 7, 8 };
	static const char *const cls[] = { "dir", "file", "lnk_file", "chr_file", "chr_file", "blk_file", "sock_file", "fifo_file", "process" };
	for (unsigned i = 0; cls[WHICH][i]; i++) HO(c)[i] = cls[WHICH][i];
	static char nm[9][4][24];
	for (unsigned i = 0; i < 9; i++)
		for (unsigned k = 0; k < 4; k++) {
			unsigned n = 0;
			nm[i][k][n++] = (char)('a' + k); nm[i][k][n++] = '_';
			for (unsigned j = 0; suf[i][j]; j++) nm[i][k][n++] = suf[i][j];
			for (unsigned j = 0; j < 7; j++) nm[i][k][n++] = "_perms"[j];
			if (num[i] != num[WHICH]) { if (k < 1 && i % 2 == WHICH % 2) insert_into_permmacros_map(nm[i][k], two("write", "mounton")); }
			else if (i != WHICH) continue;
			else if (k == 0) insert_into_permmacros_map(nm[i][k], two("open", "read"));
			else if (k == 1) insert_into_permmacros_map(nm[i][k], three("write", "relabelto", "open"));
			else if (k == 2) insert_into_permmacros_map(nm[i][k], two("read", "bogus"));
		}
	struct string_list *l = three(HO(p), HO(q), HO(r));
	bool e = WHICH != 8 && ((has(l, "open") && has(l, "read")) || (has(l, "write") && has(l, "relabelto") && has(l, "open")));
	vf_run_check("S-010", "m1.te", FILE_TE_FILE, "m1", NULL);
	vf_expect(2, e, "a list is reported exactly if it contains all of a macro of its class");
#if WHICH != 8
	if (e) VF_WITNESS("macro");
#endif
	if (!e) VF_WITNESS("none");
#elif CASE == 1
	static char name[16] = "_file_perms";
	HO(c)[0] = 'f'; HO(c)[1] = 'i'; HO(c)[2] = 'l'; HO(c)[3] = 'e';
	insert_into_permmacros_map(name, two("write", "mounton"));
	struct string_list *l = two(HO(p), HO(q));
	bool e = has(l, "write") && has(l, "mounton");
	vf_run_check("S-010", "m1.te", FILE_TE_FILE, "m1", NULL);
	vf_expect(6, e, "only allow rules of several permissions on one class are reported");
	if (e) VF_WITNESS("macro"); else VF_WITNESS("none");
#else
	/* a macro in a macro, and in the rule */
	static const char *const more[] = { "read", "write", "open", "relabelto", "b_perms", "bogus" };
	vf_pick(HO(p), more, 6, 9);
	insert_into_permmacros_map("b_perms", two("read", "relabelto"));
	insert_into_permmacros_map("a_file_perms", two("b_perms", "open"));
	const char *q = HO(q), *p = HO(p);
	bool in = vf_eq(p, "b_perms");
	bool e = (in && vf_eq(q, "open"));
	vf_run_check("S-010", "m1.te", FILE_TE_FILE, "m1", NULL);
	vf_expect(2, e, "macros within macros stand for their permissions");
	if (e) VF_WITNESS("macro"); else VF_WITNESS("none");
#endif
	vf_expect_rest();
}
