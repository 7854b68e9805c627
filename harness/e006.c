/* E-006 (name clash), E-007 (unknown permission), E-008 (unknown class), E-010 (stray word) */
#include "world.h"
/*@policy m1.te if CASE==0
policy_module(m1, 1.0)
type HOLE_A;
gen_require(`
	attribute HOLE_B;
	type d_t, HOLE_A;
	class file read;
')
optional_policy(`
	role HOLE_B;
')
bool HOLE_A;
attribute_role HOLE_B;
@*/
/*@policy m1.te if CASE==1
policy_module(m1, 1.0)
allow a_t b_t:file { HOLE_A HOLE_B };
dontaudit a_t b_t:file ~{ HOLE_A };
auditallow a_t b_t:file *;
optional_policy(`
	neverallow a_t b_t:file HOLE_B;
')
@*/
/*@policy m1.te if CASE==2
policy_module(m1, 1.0)
allow a_t b_t:file { HOLE_A };
@*/
/*@policy m1.te if CASE==3
policy_module(m1, 1.0)
allow a_t b_t:{ HOLE_A HOLE_B } read;
type_transition a_t b_t:HOLE_A c_t;
range_transition a_t b_t:{ HOLE_B HOLE_A } s0;
optional_policy(`
	auditallow a_t b_t:HOLE_B read;
')
@*/
/*@policy m1.te if CASE==4
policy_module(m1, 1.0)
allow a_t b_t:HOLE_A read;
@*/
/*@policy m1.te if CASE==5
policy_module(m1, 1.0)
HOLE_A
optional_policy(`
	HOLE_B
')
ifelse(`
	HOLE_A', `
	HOLE_A', `
	HOLE_A', `
	HOLE_B', `
	HOLE_B', `
	HOLE_B', `
	HOLE_A
	HOLE_B
	')
ifdef(`x', `
	HOLE_B')
ifelse(`
	HOLE_B', `
	optional_policy(`
		HOLE_A
	')
', `
	HOLE_B')
@*/
static bool ends(const char *s, const char *t)
{
	unsigned n = 0, m = 0;
	while (s[n]) n++;
	while (t[m]) m++;
	if (n < m) return false;
	for (unsigned i = 0; i < m; i++) if (s[n - m + i] != t[i]) return false;
	return true;
}
#if CASE == 0
void vf_main(void)
{
	static char i1[4], i2[4];
	vf_ident(i1, 1, 3); vf_ident(i2, 1, 3);
	ID3(A); ID3(B);
	insert_into_ifs_map(i1, "m1");
	insert_into_ifs_map(i2, "o");
	insert_into_ifs_map("file", "o");
	vf_run_check("E-006", "m1.te", FILE_TE_FILE, "m1", NULL);
	bool a = vf_eq(HO(A), i1) || vf_eq(HO(A), i2), b = vf_eq(HO(B), i1) || vf_eq(HO(B), i2);
	bool d = vf_eq(i1, "d_t") || vf_eq(i2, "d_t");
	vf_expect(2, a, "a declaration is reported exactly if an interface of the same name is known");
	vf_expect(4, b, "a required name is reported exactly if an interface of the same name is known");
	vf_seen[5] = true;
	VF_ASSERT(vf_hits[5] == (unsigned)a + (unsigned)d, "each name of a list is judged on its own");
	vf_expect(6, true, "a class sharing an interface's name is reported");
	vf_expect(9, b, "a declaration in a nested block is judged the same way");
	vf_expect(11, a, "a boolean is judged the same way");
	vf_expect(12, b, "a role attribute is judged the same way");
	vf_expect_rest();
	if (a && b) VF_WITNESS("clash"); else if (!a && !b && !d) VF_WITNESS("none");
}
#elif CASE <= 2
static const char *const pn[] = { "read", "a", "all_x_perms", "all_perm", "all_perms", "x_perms", "call_x_perms", "all_" };
void vf_main(void)
{
	static char p1[6], q1[8];
	ID3(A); ID3(B);
#if CASE == 1
	vf_ident(p1, 1, 3); vf_ident(q1, 1, 3);
	insert_into_decl_map(p1, "class", DECL_PERM);
	insert_into_permmacros_map(q1, sl_from_str("read"));
	vf_run_check("E-007", "m1.te", FILE_TE_FILE, "m1", NULL);
	bool a = !vf_eq(HO(A), p1) && !vf_eq(HO(A), q1), b = !vf_eq(HO(B), p1) && !vf_eq(HO(B), q1);
	vf_expect(2, a || b, "a rule is reported exactly if it uses a permission that is neither a permission nor a permission macro");
	vf_expect(3, a, "a complemented set is judged by its members");
	vf_expect(6, b, "a rule in a nested block is judged the same way");
	if (a) VF_WITNESS("first"); else if (b) VF_WITNESS("second"); else VF_WITNESS("known");
#else
	vf_pick(vf_hole_A, pn, 8, 12);
	bool hp = vf_b(), hm = vf_b();
	if (hp) insert_into_decl_map("read", "class", DECL_PERM);
	if (hm) insert_into_permmacros_map("x_perms", sl_from_str("read"));
	struct checks *ck = vf_only("E-007");
	vf_out_sync();
	VF_ASSERT((vf_out_len != 0) == !(hp && hm), "a note says when the check cannot be performed");
	struct policy_node *ast = vf_parse("m1.te", NODE_TE_FILE);
	VF_ASSUME(ast != NULL);
	struct check_data d = vf_cd("m1", "m1.te", FILE_TE_FILE, NULL);
	vf_sweep(ck, &d, ast, "E-007");
	const char *x = HO(A);
	bool gen = vf_eq(x, "all_x_perms") || vf_eq(x, "all_perms");
	vf_expect(2, hp && hm && !gen && !vf_eq(x, "read") && !vf_eq(x, "x_perms"), "the check runs only if permissions and permission macros are known, and exempts the generated all-permission macros");
	if (hp && hm && gen) VF_WITNESS("generated"); else if (!hm) VF_WITNESS("no macros"); else if (!hp) VF_WITNESS("no permissions");
#endif
	vf_expect_rest();
}
#elif CASE <= 4
void vf_main(void)
{
#if CASE == 3
	static char c1[6];
	vf_ident(c1, 1, 3);
	ID3(A); ID3(B);
	insert_into_decl_map(c1, "class", DECL_CLASS);
	vf_run_check("E-008", "m1.te", FILE_TE_FILE, "m1", NULL);
	bool a = !vf_eq(HO(A), c1) && !(HO(A)[0] == '$' && HO(A)[1] >= '0' && HO(A)[1] <= '9');
	bool b = !vf_eq(HO(B), c1) && !(HO(B)[0] == '$' && HO(B)[1] >= '0' && HO(B)[1] <= '9');
	vf_expect(2, a || b, "a rule is reported exactly if one of its classes is unknown and no parameter");
	vf_expect(3, a, "a type transition is judged the same way");
	vf_expect(4, a || b, "a range transition is judged the same way");
	vf_expect(6, b, "a rule in a nested block is judged the same way");
	if (a) VF_WITNESS("first"); else if (b) VF_WITNESS("second"); else if (HO(A)[0] == '$') VF_WITNESS("parameter");
#else
	VF_PICK(vf_hole_A, "file", "dir", "x_class_set", "x_class_sets", "_class_set", "class_set", "$1", "$x", "$1_f");
	bool hc = vf_b();
	if (hc) insert_into_decl_map("file", "class", DECL_CLASS);
	struct checks *ck = vf_only("E-008");
	vf_out_sync();
	VF_ASSERT((vf_out_len != 0) == !hc, "a note says when the check cannot be performed");
	struct policy_node *ast = vf_parse("m1.te", NODE_TE_FILE);
	VF_ASSUME(ast != NULL);
	struct check_data d = vf_cd("m1", "m1.te", FILE_TE_FILE, NULL);
	vf_sweep(ck, &d, ast, "E-008");
	const char *x = HO(A);
	bool known = vf_eq(x, "file") || ends(x, "_class_set") || (x[0] == '$' && x[1] == '1');
	vf_expect(2, hc && !known, "the check runs only if classes are known, and exempts class sets and parameters");
	if (!hc) VF_WITNESS("no classes"); else if (ends(x, "_class_set")) VF_WITNESS("class set"); else if (!known) VF_WITNESS("unknown");
#endif
	vf_expect_rest();
}
#else
void vf_main(void)
{
	static struct config_check_data ccd;
	static char w1[4], w2[4];
	vf_ident(w1, 1, 3); vf_ident(w2, 1, 3);
	ID3(A); ID3(B);
	ccd.custom_te_simple_macros = sl_from_strs(2, w1, w2);
	vf_run_check("E-010", "m1.te", FILE_TE_FILE, "m1", &ccd);
	bool a = !vf_eq(HO(A), w1) && !vf_eq(HO(A), w2), b = !vf_eq(HO(B), w1) && !vf_eq(HO(B), w2);
	vf_expect(2, a, "a word standing alone is reported exactly if it is not configured as a macro");
	vf_expect(4, b, "a word alone in a nested block is judged the same way");
	vf_expect(7, false, "an ifelse comparison operand is not reported");
	vf_expect(8, false, "an ifelse comparison operand is not reported");
	vf_expect(9, a, "an ifelse result is judged like any block");
	vf_expect(10, false, "a later ifelse comparison operand is not reported");
	vf_expect(11, false, "a later ifelse comparison operand is not reported");
	vf_expect(12, b, "a later ifelse result is judged like any block");
	vf_expect(13, a, "the last argument of ifelse is always a result");
	vf_expect(14, b, "the last argument of ifelse is always a result");
	vf_expect(17, b, "a word alone in ifdef is judged the same way");
	vf_expect(19, false, "an ifelse comparison operand is not reported");
	vf_expect(21, false, "anything inside a comparison operand is not reported");
	vf_expect(24, b, "the last argument of ifelse is always a result");
	vf_expect_rest();
	if (a && b) VF_WITNESS("stray"); else if (!a && !b) VF_WITNESS("macros");
}
#endif
