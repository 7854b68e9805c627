/* What a call of a template declares. */
#include "world.h"
#include "template.h"
#ifndef B
#define B 64
#endif
static char guard;
static char *last;
static size_t asked;
/* blocks of one size, with everything behind what was asked for preset */
void *vf_cap_malloc(size_t n)
{
#ifdef VF_SYMBOLIC
	__CPROVER_assert(n <= B, "B:block size");
	char *p = malloc(B);
#if CASE == 0
	last = p;
	asked = n;
	for (unsigned i = 0; i < B; i++) p[i] = guard;
#endif
	return p;
#else
	return malloc(n);
#endif
}
#if CASE == 0
/*@lines none
@*/
static bool digit(char c) { return c >= '0' && c <= '9'; }
void vf_main(void)
{
	static char a[3][A + 1];
	struct string_list l[3];
#ifdef LONG
	unsigned na = 1;
#else
	unsigned na = vf_u(4);
#endif
	for (unsigned i = 0; i < 3; i++) {
#ifdef LONG
		for (unsigned j = 0; j < A; j++) a[i][j] = (char)('a' + i);
#else
		vf_str(a[i], A);
#endif
		memset(&l[i], 0, sizeof l[i]);
		l[i].string = a[i];
		l[i].next = NULL;
	}
	if (na > 1) l[0].next = &l[1];
	if (na > 2) l[1].next = &l[2];
	guard = (char)vf_nd_raw();
	char *s = malloc(K + 1);
	for (unsigned i = 0; i < K; i++) { s[i] = (char)vf_nd_raw(); VF_ASSUME(s[i] != '\0'); }
	s[K] = '\0';
#ifdef LONG
	s[0] = s[2] = '$';
#endif
	/* what has to come out */
	static char e[K * A + K + 2];
	unsigned n = 0, subst = 0;
	bool unsure = false;
	for (unsigned i = 0; i < K; i++) {
		if (s[i] == '$') {
			unsigned d = i + 1 < K && digit(s[i + 1]) ? (unsigned)(s[i + 1] - '0') : 0;
			if (d == 0) { unsure = true; continue; }
			unsigned arg = d;
			if (i + 2 < K && digit(s[i + 2])) { arg = 10 * d + (unsigned)(s[i + 2] - '0'); if (i + 3 < K && digit(s[i + 3])) unsure = true; }
			for (unsigned j = 0; j < 3; j++)
				if (arg == j + 1 && j < na) for (unsigned k = 0; k < A && a[j][k]; k++) e[n++] = a[j][k];
			subst++;
		} else if (i > 0 && digit(s[i]) && s[i - 1] == '$') {
		} else if (i > 1 && digit(s[i]) && digit(s[i - 1]) && s[i - 2] == '$') {
		} else e[n++] = s[i];
	}
	e[n] = '\0';
	char *r = replace_m4(s, na ? l : NULL);
#ifdef VF_SYMBOLIC
	bool kept = true;
	if (last) for (unsigned i = 0; i < B; i++) if (i >= asked && last[i] != guard) kept = false;
	VF_ASSERT(kept, "nothing is written beyond the block");
#endif
	if (unsure) {
#if K > 0
		VF_WITNESS("other use of $");
#endif
		return;
	}
	VF_ASSERT(r != NULL, "arguments are substituted");
	VF_ASSUME(r != NULL);
	bool same = true, end = false;
	for (unsigned i = 0; i <= n; i++) if (!end) { if (r[i] != e[i]) { same = false; end = true; } }
	VF_ASSERT(same, "each argument is in its place, as often as it is used");
#if K > 1
	if (subst) VF_WITNESS("substituted");
#endif
#if K > 3
	if (subst > 1) VF_WITNESS("twice");
#endif
}
#elif CASE == 3
/*@lines none
@*/
/* arguments passed on: N of them, each of two bytes */
void vf_main(void)
{
	static char a[2], f[2][3];
	struct string_list l, from[2];
	memset(&l, 0, sizeof l);
	memset(from, 0, sizeof from);
	l.string = a;
	vf_strn(a, 1);
	for (unsigned i = 0; i < 2; i++) { vf_strn(f[i], 2); from[i].string = f[i]; }
	from[0].next = &from[1];
	struct string_list *r = replace_m4_list(vf_b() ? &l : NULL, N > 1 ? from : N > 0 ? &from[1] : NULL);
	unsigned n = 0;
	bool ok = true;
	for (; r; r = r->next) { n++; ok = ok && r->string; }
	VF_ASSERT(n == N && ok, "each argument is passed on");
#if N > 0
	if (f[1][0] == '$' && f[1][1] == '*') VF_WITNESS("all arguments");
#endif
}
#else
/*@policy tmpl if CASE == 1 || CASE == 2
template(`t0',`
	gen_require(` type $1_no; ')
	type $1_t alias l_$1;
	role x$2;
	attribute $3;
	t0_x($1_n, k, $2)
	t2()
	optional_policy(`
		type $1_i;
		t0_z($1)
	')
	type $1_u, $2;
')
template(`t0_x',`
	type $1;
	gen_bool($3_$1$1, false)
')
template(`t0_z',`
	role $1_z;
')
template(`t2',`
	type fix$1;
	t3($*)
')
template(`t3',`
	attribute all;
')
interface(`i0',`
	type $1_if;
')
@*/
/*@policy modl if CASE == 1 || CASE == 2
policy_module(m, 1.0)
t0(HOLE_a, HOLE_b)
@*/
static bool cat(const char *q, const char *x, const char *y, const char *z)
{
	unsigned n = 0;
	bool ok = true;
	for (unsigned i = 0; x[i]; i++) ok = ok && q[n] == x[i] && ++n;
	for (unsigned i = 0; y[i]; i++) ok = ok && q[n] == y[i] && ++n;
	for (unsigned i = 0; z[i]; i++) ok = ok && q[n] == z[i] && ++n;
	return ok && q[n] == '\0';
}
void vf_main(void)
{
	static char q[13];
#if CASE == 1
	vf_ident(HO(a), 1, 2);
	vf_ident(HO(b), 1, 2);
#else
	HO(a)[0] = 'a'; HO(b)[0] = 'b';
#endif
	VF_ASSUME(HO(a)[0] != '$' && HO(a)[1] != '$' && HO(b)[0] != '$' && HO(b)[1] != '$');
	vf_str(q, 12);
	set_current_module_name("other");
	struct policy_node *t = vf_parse("tmpl", NODE_IF_FILE);
	VF_ASSERT(t != NULL, "parsed");
	struct policy_node *m = vf_parse("modl", NODE_TE_FILE);
	VF_ASSERT(m != NULL, "parsed");
	static char an[5], bool_[12];
	unsigned n = 0;
	for (unsigned i = 0; HO(a)[i]; i++) an[n++] = HO(a)[i];
	an[n++] = '_'; an[n++] = 'n';
	bool ty = cat(q, HO(a), "_t", "") || cat(q, HO(a), "_n", "") || cat(q, "fix", "", "") || cat(q, HO(a), "_u", "") || cat(q, "l_", HO(a), "") || cat(q, HO(a), "_i", "");
	bool ro = cat(q, "x", HO(b), "") || cat(q, HO(a), "_z", "");
	bool bo = false;
	{ unsigned k = 0; for (unsigned i = 0; HO(b)[i]; i++) bool_[k++] = HO(b)[i]; bool_[k++] = '_'; for (unsigned i = 0; i < n; i++) bool_[k++] = an[i]; for (unsigned i = 0; i < n; i++) bool_[k++] = an[i]; bool_[k] = '\0'; bo = cat(q, bool_, "", ""); }
	bool at = cat(q, "all", "", "");
	VF_ASSUME(q[0] != '\0');
	const char *x = look_up_in_decl_map(q, DECL_TYPE);
	VF_ASSERT((x != NULL) == ty, "exactly the types of the templates are declared");
	if (x) { VF_ASSERT(vf_eq(x, "m"), "by the calling module"); VF_WITNESS("type"); }
	x = look_up_in_decl_map(q, DECL_ROLE);
	VF_ASSERT((x != NULL) == ro, "exactly the roles of the templates are declared");
	if (x) { VF_ASSERT(vf_eq(x, "m"), "by the calling module"); VF_WITNESS("role"); }
	x = look_up_in_decl_map(q, DECL_BOOL);
	VF_ASSERT((x != NULL) == bo, "exactly the booleans of the templates are declared");
	if (x) { VF_ASSERT(vf_eq(x, "m"), "by the calling module"); VF_WITNESS("boolean"); }
	x = look_up_in_decl_map(q, DECL_ATTRIBUTE);
	VF_ASSERT((x != NULL) == at, "exactly the attributes of the templates are declared");
	if (x) { VF_ASSERT(vf_eq(x, "m"), "by the calling module"); VF_WITNESS("attribute"); }
}
#endif
