/* W-001: names of other modules used in a te file without interface or require. */
#include "world.h"
/*@policy m1.te if CASE==0
policy_module(m1, 1.0)
require {
	type HOLE_R;
	attribute HOLE_S;
}
allow HOLE_A { HOLE_B -HOLE_C }:file read;
dontauditxperm HOLE_A HOLE_D:file ioctl 0x1;
@*/
/*@policy m1.te if CASE==1
policy_module(m1, 1.0)
gen_require(`
	type HOLE_R;
	attribute_role HOLE_S;
')
type_transition HOLE_A HOLE_B:process HOLE_C;
role_transition HOLE_A HOLE_B HOLE_D;
range_transition HOLE_A HOLE_B:process s0;
@*/
/*@policy m1.te if CASE==2
policy_module(m1, 1.0)
gen_require(`
	type HOLE_S, HOLE_R;
')
allow HOLE_A HOLE_B;
role HOLE_A types { HOLE_B HOLE_C };
typeattribute HOLE_A HOLE_B, HOLE_C;
roleattribute HOLE_A HOLE_B;
permissive HOLE_A;
@*/
/*@policy m1.te if CASE==3
policy_module(m1, 1.0)
gen_require(`
	attribute HOLE_R, HOLE_S;
')
bar(HOLE_A, { HOLE_B -HOLE_C }, self)
type z_t, HOLE_A, HOLE_B;
@*/
/*@policy m1.te if CASE==4
policy_module(m1, 1.0)
optional_policy(`
	gen_require(`
		type HOLE_R;
	')
	ifdef(`x',`
		allow HOLE_A self:file read;
	')
')
allow HOLE_B self:file read;
require {
	type HOLE_S;
}
allow HOLE_C self:file read;
@*/
/*@policy m1.if if CASE==5
interface(`foo',`
	allow HOLE_A HOLE_B:file read;
	bar(HOLE_C)
')
@*/
/*@policy m1.te if CASE==6
policy_module(m1, 1.0)
require {
	class file read;
	role HOLE_S;
	bool HOLE_R;
}
typealias HOLE_A alias y_t;
allow HOLE_B self:file read;
allow HOLE_C self:file read;
@*/
static char ow_t[3], ow_a[3], ow_q[3];       /* declaring modules: own (m1) or another */
static void owner(char *b) { bool own = vf_b(); b[0] = own ? 'm' : 'o'; b[1] = own ? '1' : '\0'; }
/* kind of a known name: the first of type, attribute, attribute role it is declared as */
static int kind(const char *n)
{
	if (vf_eq(n, "a_t") || vf_eq(n, "k_k")) return DECL_TYPE;
	if (vf_eq(n, "b_a")) return DECL_ATTRIBUTE;
	if (vf_eq(n, "c_r")) return DECL_ATTRIBUTE_ROLE;
	return -1;
}
static bool foreign(const char *n)
{
	if (vf_eq(n, "a_t")) return !vf_eq(ow_t, "m1");
	if (vf_eq(n, "k_k")) return true;
	if (vf_eq(n, "b_a")) return !vf_eq(ow_a, "m1");
	if (vf_eq(n, "c_r")) return !vf_eq(ow_q, "m1");
	return false;
}
static int kR = -1, kS = -1;
static bool bad(const char *n)
{
	int k = kind(n);
	return k >= 0 && foreign(n) && !(k == kR && vf_eq(n, HO(R))) && !(k == kS && vf_eq(n, HO(S)));
}
static bool bad_no(const char *n) { return kind(n) >= 0 && foreign(n); }
void vf_main(void)
{
	owner(ow_t); owner(ow_a); owner(ow_q);
	insert_into_decl_map("a_t", ow_t, DECL_TYPE);
	insert_into_decl_map("b_a", ow_a, DECL_ATTRIBUTE);
	insert_into_decl_map("c_r", ow_q, DECL_ATTRIBUTE_ROLE);
	insert_into_decl_map("k_k", "o", DECL_TYPE);      /* a type elsewhere and an attribute here: the type wins */
	insert_into_decl_map("k_k", "m1", DECL_ATTRIBUTE);
	insert_into_decl_map("d_r", "o", DECL_ROLE);      /* roles are exempt */
	ID3(A); ID3(B); ID3(C);
#if CASE != 5
	ID3(R); ID3(S);
#endif
#if CASE == 0 || CASE == 1
	ID3(D);
#endif
	vf_run_check("W-001", CASE == 5 ? "m1.if" : "m1.te", CASE == 5 ? FILE_IF_FILE : FILE_TE_FILE, "m1", NULL);
	bool a, b, c;
	kR = CASE == 3 ? DECL_ATTRIBUTE : DECL_TYPE;
	kS = CASE == 0 || CASE == 3 ? DECL_ATTRIBUTE : CASE == 1 ? DECL_ATTRIBUTE_ROLE : DECL_TYPE;
	a = bad(HO(A)); b = bad(HO(B)); c = bad(HO(C));
#if CASE == 0
	vf_expect(6, a || b || c, "an access rule is reported exactly if it names something of another module that is not required");
	vf_expect(7, a || bad(HO(D)), "an extended permission rule is reported exactly if it names something of another module that is not required");
	if (a) VF_WITNESS("source"); else if (b) VF_WITNESS("target"); else if (c) VF_WITNESS("excluded"); else if (foreign(HO(A))) VF_WITNESS("required");
#elif CASE == 1
	vf_expect(6, a || b || c, "a type transition is reported exactly if it names something of another module that is not required");
	vf_expect(7, a || b || bad(HO(D)), "a role transition is reported exactly if it names something of another module that is not required");
	vf_expect(8, a || b, "a range transition is reported exactly if it names something of another module that is not required");
	if (a) VF_WITNESS("source"); else if (b) VF_WITNESS("target"); else if (c) VF_WITNESS("default"); else if (foreign(HO(A))) VF_WITNESS("required");
#elif CASE == 2
	vf_expect(5, a || b, "a role allow is reported exactly if it names something of another module that is not required");
	vf_expect(6, a || b || c, "a role-types statement is reported exactly if it names something of another module that is not required");
	vf_expect(7, a || b || c, "a typeattribute statement is reported exactly if it names something of another module that is not required");
	vf_expect(8, a || b, "a roleattribute statement is reported exactly if it names something of another module that is not required");
	vf_expect(9, a, "a permissive statement is reported exactly if it names something of another module that is not required");
	if (a) VF_WITNESS("first"); else if (b) VF_WITNESS("second"); else if (c) VF_WITNESS("third"); else VF_WITNESS("none");
#elif CASE == 3
	vf_expect(5, a || b || c, "an interface call is reported exactly if an argument names something of another module that is not required");
	vf_expect(6, a || b, "a declaration is reported exactly if an attribute it uses belongs to another module and is not required");
	if (a) VF_WITNESS("first"); else if (b) VF_WITNESS("second"); else VF_WITNESS("none");
#elif CASE == 4
	bool rA = kind(HO(A)) == DECL_TYPE && vf_eq(HO(A), HO(R));
	bool sC = kind(HO(C)) == DECL_TYPE && vf_eq(HO(C), HO(S));
	vf_expect(7, bad_no(HO(A)) && !rA, "a require in an enclosing block counts");
	vf_expect(10, bad_no(HO(B)), "a require in a closed sibling block or later in the file does not count");
	vf_expect(14, bad_no(HO(C)) && !sC, "an earlier require at the same level counts");
	if (bad_no(HO(B)) && vf_eq(HO(B), HO(R))) VF_WITNESS("closed block"); else if (bad_no(HO(A)) && rA) VF_WITNESS("enclosing");
#elif CASE == 6
	vf_expect(7, bad_no(HO(A)), "a require of another kind does not count");
	vf_expect(8, bad_no(HO(B)), "a require of another kind does not count");
	vf_expect(9, bad_no(HO(C)), "a require of another kind does not count");
	if (bad_no(HO(B)) && vf_eq(HO(B), HO(S))) VF_WITNESS("wrong kind"); else VF_WITNESS("other");
#else
	if (foreign(HO(A))) VF_WITNESS("interface file");
#endif
	vf_expect_rest();
}
