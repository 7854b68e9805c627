/* C-006: order of declarations in require blocks; S-009: permission macro against class */
#include "world.h"
/*@policy m1.if if CASE==0
interface(`foo',`
	gen_require(`
		type HOLE_A;
		type HOLE_B;
		type HOLE_C;
	')
')
@*/
/*@policy m1.if if CASE==1
template(`foo',`
	gen_require(`
		type HOLE_A, HOLE_B, HOLE_C;
	')
')
@*/
/*@policy m1.te if CASE==2
policy_module(m1, 1.0)
require {
	type HOLE_A;
	type HOLE_B;
}
@*/
/*@policy m1.te if CASE==3
policy_module(m1, 1.0)
allow a_t b_t:HOLE_A HOLE_B;
optional_policy(`
	dontaudit a_t b_t:HOLE_A { read HOLE_B };
')
@*/
/*@policy m1.te if CASE==4
policy_module(m1, 1.0)
allow a_t b_t:{ HOLE_A HOLE_C } { read HOLE_B };
@*/
#if CASE <= 2
static int cmp(const char *a, const char *b)
{
	/* a final _t counts as _ */
	unsigned n = 0, m = 0;
	while (a[n]) n++;
	while (b[m]) m++;
	if (n >= 2 && a[n - 2] == '_' && a[n - 1] == 't') n--;
	if (m >= 2 && b[m - 2] == '_' && b[m - 1] == 't') m--;
	for (unsigned i = 0; i < n || i < m; i++) {
		int x = i < n ? a[i] : 0, y = i < m ? b[i] : 0;
		if (x != y) return x - y;
	}
	return 0;
}
static void name(char *b)
{
	vf_ident(b, 1, 4);
	for (unsigned i = 0; i < 4; i++) {
		VF_ASSUME(b[i] == '\0' || (b[i] >= 'a' && b[i] <= 'z') || b[i] == '_');
		VF_ASSUME(b[i] != '_' || (b[i + 1] != '_' && b[i + 1] != '\0'));
	}
}
static struct config_check_data ccd;
static unsigned rank(unsigned f)
{
	for (unsigned i = 0; i < 6; i++) if ((unsigned)ccd.order_requires[i] == f) return i;
	return 6;
}
static const enum decl_flavor fl[6] = { DECL_TYPE, DECL_ATTRIBUTE, DECL_ROLE, DECL_ATTRIBUTE_ROLE, DECL_BOOL, DECL_CLASS };
void vf_main(void)
{
	unsigned perm[6];
	for (unsigned i = 0; i < 6; i++) {
		perm[i] = vf_u(6);
		for (unsigned j = 0; j < i; j++) VF_ASSUME(perm[i] != perm[j]);
		ccd.order_requires[i] = fl[perm[i]];
	}
	ccd.ordering_requires_same_flavor = vf_b();
	name(vf_hole_A); name(vf_hole_B);
#if CASE < 2
	name(vf_hole_C);
#endif
	const bool te = CASE == 2;
	struct policy_node *ast = vf_parse(te ? "m1.te" : "m1.if", te ? NODE_TE_FILE : NODE_IF_FILE);
	VF_ASSERT(ast != NULL, "the file is accepted");
	VF_ASSUME(ast != NULL);
	struct policy_node *q = vf_nth(ast, te ? NODE_REQUIRE : NODE_GEN_REQ, 0);
	unsigned f[3] = { DECL_TYPE, DECL_TYPE, DECL_TYPE };
	struct policy_node *n = q->first_child->next;
	for (unsigned i = 0; i < (te ? 2u : 3u); i++) {
		struct declaration_data *dd = n->data.d_data;
		f[i] = fl[vf_u(6)];
		dd->flavor = f[i];
		n = n->next;
	}
	struct check_data d = vf_cd("m1", te ? "m1.te" : "m1.if", te ? FILE_TE_FILE : FILE_IF_FILE, &ccd);
	vf_sweep(vf_only("C-006"), &d, ast, "C-006");
	const bool s = ccd.ordering_requires_same_flavor;
	bool r = rank(f[0]) > rank(f[1]) || (f[0] == f[1] && s && cmp(HO(A), HO(B)) >= 0);
#if CASE < 2
	r = r || rank(f[1]) > rank(f[2]) || (f[1] == f[2] && s && cmp(HO(B), HO(C)) >= 0);
#endif
	vf_expect(2, r, "a require block is reported exactly if two neighbouring declarations are not in the configured order of kinds, or, when so configured, of names");
	vf_expect_rest();
	if (r && f[0] == f[1]) VF_WITNESS("names"); else if (r) VF_WITNESS("kinds"); else if (f[0] == f[1]) VF_WITNESS("same kind in order"); else VF_WITNESS("in order");
}
#else
static bool suf(const char *s, const char *a, const char *b)
{
	unsigned n = 0, l = 0, m = 0;
	while (s[n]) n++;
	while (a[l]) l++;
	while (b[m]) m++;
	if (n < l + m) return false;
	for (unsigned i = 0; i < l; i++) if (s[n - l - m + i] != a[i]) return false;
	for (unsigned i = 0; i < m; i++) if (s[n - m + i] != b[i]) return false;
	return true;
}
static bool fits(const char *c, const char *p)
{
	return suf(p, c, "_perms") || (vf_eq(c, "chr_file") && suf(p, "term", "_perms")) || (vf_eq(c, "process") && suf(p, "signal", "_perms"));
}
static bool netlink(const char *c) { return c[0] == 'n' && c[1] == 'e' && c[2] == 't'; }   /* among the classes chosen below */
static bool sock(const char *c) { return suf(c, "_socket", ""); }
static bool set(const char *c) { return suf(c, "_class_set", ""); }
void vf_main(void)
{
#define CLASSES "file", "chr_file", "lnk_file", "process", "netlink_x_socket", "tcp_socket", "socket", "x_class_set", "dir"
	VF_PICK(vf_hole_A, CLASSES);
	VF_PICK(vf_hole_B, "r_file_perms", "r_lnk_file_perms", "r_chr_file_perms", "rw_term_perms", "x_signal_perms", "rw_socket_perms", "rw_netlink_socket_perms", "a_tcp_socket_perms", "read", "dir_perms", "perms", "_perms");
	const char *a = HO(A), *p = HO(B);
	bool macro = suf(p, "_perms", ""), ok;
	bool fsub = suf(p, "lnk_file_perms", "") || suf(p, "chr_file_perms", "") ;
#if CASE == 3
	const bool nl = netlink(a), sk = sock(a), f = vf_eq(a, "file");
	ok = fits(a, p) && !(f && fsub);
#else
	VF_PICK(vf_hole_C, CLASSES);
	const char *c = HO(C);
	const bool nl = netlink(a) && netlink(c), sk = sock(a) && sock(c), f = vf_eq(a, "file") || vf_eq(c, "file");
	ok = fits(a, p) && fits(c, p) && !(f && fsub);
#endif
	if (!ok && !(fits(a, p) && f && fsub)) {
		ok = nl && suf(p, "_socket_perms", "");
		ok = ok || (sk && !nl && suf(p, "_socket_perms", "") && !suf(p, "netlink_socket_perms", ""));
	}
	bool e = !set(a) && macro && !ok;
	vf_run_check("S-009", "m1.te", FILE_TE_FILE, "m1", NULL);
	vf_expect(2, e, "a rule is reported exactly if a permission macro names a class other than the rule's");
#if CASE == 3
	vf_expect(4, e, "every permission of the rule is judged");
#endif
	vf_expect_rest();
	if (e) VF_WITNESS("mismatch"); else if (!macro) VF_WITNESS("no macro"); else if (set(a)) VF_WITNESS("class set"); else if (sk) VF_WITNESS("socket");
}
#endif
