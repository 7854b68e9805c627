/* W-002: names used in an interface or template body but not required. */
#include "world.h"
/*@policy m1.if if CASE==0
interface(`foo',`
	gen_require(`
		type HOLE_R, HOLE_S;
	')
	allow HOLE_A { HOLE_B -HOLE_C }:file read;
	allowxperm HOLE_A HOLE_D:file ioctl 0x1;
')
@*/
/*@policy m1.if if CASE==1
interface(`foo',`
	gen_require(`
		type HOLE_R;
		role HOLE_S;
	')
	type_transition HOLE_A HOLE_B:process HOLE_C;
	role_transition HOLE_A HOLE_B HOLE_D;
	range_transition HOLE_A HOLE_B:process s0;
')
@*/
/*@policy m1.if if CASE==2
interface(`foo',`
	gen_require(`
		type HOLE_R;
		attribute_role HOLE_S;
	')
	allow HOLE_A HOLE_B;
	role HOLE_A types { HOLE_B HOLE_C };
	typeattribute HOLE_A HOLE_B, HOLE_C;
	roleattribute HOLE_A HOLE_B;
	permissive HOLE_A;
')
@*/
/*@policy m1.if if CASE==3
interface(`foo',`
	require {
		attribute HOLE_R;
		class file HOLE_S;
	}
	bar(HOLE_A, { HOLE_B -HOLE_C }, self)
	type $1_x, HOLE_A, HOLE_B;
	allow system_r HOLE_A;
')
@*/
/*@policy m1.if if CASE==4
template(`foo',`
	ifdef(`x',`
		gen_require(`
			type HOLE_R;
		')
	')
	allow HOLE_A HOLE_B:file read;
	gen_require(`
		attribute HOLE_S;
	')
	optional_policy(`
		allow HOLE_A HOLE_C:file read;
	')
')
interface(`bar',`
	allow HOLE_A self:file read;
')
@*/
/*@policy m1.te if CASE==5
policy_module(m1, 1.0)
allow HOLE_A HOLE_B:file read;
bar(HOLE_C)
@*/
/*@policy m1.if if CASE==6
interface(`foo',`
	gen_require(`
		type HOLE_R, e_t, f_t;
		role g_r;
	')
	require {
		class file read;
		attribute h_a, HOLE_S, i_a;
	}
	gen_require(`
		type e_t, f_t, j_t, k_t, HOLE_D;
	')
	allow HOLE_A HOLE_B:file read;
')
@*/
static bool req(const char *n) { return vf_eq(n, HO(R)) || vf_eq(n, HO(S)); }
static bool known(const char *n) { return vf_eq(n, "a_t") || vf_eq(n, "b_a") || vf_eq(n, "c_r") || vf_eq(n, "d_r"); }
static bool bad(const char *n) { return known(n) && !req(n); }
void vf_main(void)
{
	insert_into_decl_map("a_t", "o", DECL_TYPE);
	insert_into_decl_map("b_a", "o", DECL_ATTRIBUTE);
	insert_into_decl_map("c_r", "o", DECL_ATTRIBUTE_ROLE);
	insert_into_decl_map("d_r", "m1", DECL_ROLE);
#if CASE == 3
	insert_into_decl_map("system_r", "o", DECL_ROLE);
#endif
	ID3(A); ID3(B);
#if CASE != 6
	ID3(C);
#endif
#if CASE != 5
	ID3(R); ID3(S);
#endif
	bool a, b, c;
#if CASE == 0 || CASE == 1 || CASE == 6
	ID3(D);
#endif
	vf_run_check("W-002", CASE == 5 ? "m1.te" : "m1.if", CASE == 5 ? FILE_TE_FILE : FILE_IF_FILE, "m1", NULL);
	a = bad(HO(A)); b = bad(HO(B)); 
#if CASE != 6
	c = bad(HO(C));
#else
	c = false; (void)c;
#endif
#if CASE == 0
	vf_expect(5, a || b || c, "an access rule is reported exactly if it uses a known name that is not required");
	vf_expect(6, a || bad(HO(D)), "an extended permission rule is reported exactly if it uses a known name that is not required");
	if (a) VF_WITNESS("source not required"); else if (b) VF_WITNESS("target not required"); else if (c) VF_WITNESS("excluded type not required"); else if (known(HO(A))) VF_WITNESS("all required");
#elif CASE == 1
	vf_expect(6, a || b || c, "a type transition is reported exactly if it uses a known name that is not required");
	vf_expect(7, a || b || bad(HO(D)), "a role transition is reported exactly if it uses a known name that is not required");
	vf_expect(8, a || b, "a range transition is reported exactly if it uses a known name that is not required");
	if (a) VF_WITNESS("source"); else if (b) VF_WITNESS("target"); else if (c) VF_WITNESS("default type");
#elif CASE == 2
	vf_expect(6, a || b, "a role allow is reported exactly if it uses a known name that is not required");
	vf_expect(7, a || b || c, "a role-types statement is reported exactly if it uses a known name that is not required");
	vf_expect(8, a || b || c, "a typeattribute statement is reported exactly if it uses a known name that is not required");
	vf_expect(9, a || b, "a roleattribute statement is reported exactly if it uses a known name that is not required");
	vf_expect(10, a, "a permissive statement is reported exactly if it uses a known name that is not required");
	if (a) VF_WITNESS("first"); else if (b) VF_WITNESS("second"); else if (c) VF_WITNESS("third"); else VF_WITNESS("none");
#elif CASE == 3
	vf_expect(6, a || b || c, "an interface call is reported exactly if an argument is a known name that is not required");
	vf_expect(7, a || b, "a declaration is reported exactly if it uses a known attribute that is not required");
	vf_expect(8, a, "system_r never needs to be required");
	if (a) VF_WITNESS("first"); else if (b) VF_WITNESS("second"); else VF_WITNESS("none");
#elif CASE == 4
	bool kr = vf_eq(HO(A), HO(R)), kb = vf_eq(HO(B), HO(R));
	vf_expect(7, (known(HO(A)) && !kr) || (known(HO(B)) && !kb), "only requires before the use count");
	vf_expect(12, a || c, "a require at any depth before the use counts");
	vf_expect(16, known(HO(A)), "requires of another interface do not count");
	if (known(HO(A)) && kr) VF_WITNESS("nested require"); else if (known(HO(A)) && vf_eq(HO(A), HO(S))) VF_WITNESS("late require");
#elif CASE == 6
	vf_expect(13, (a && !vf_eq(HO(A), HO(D))) || (b && !vf_eq(HO(B), HO(D))), "every name of each of several requires counts");
	if (known(HO(A)) && vf_eq(HO(A), HO(D))) VF_WITNESS("last"); else if (known(HO(A)) && vf_eq(HO(A), HO(S))) VF_WITNESS("middle"); else if (known(HO(A)) && vf_eq(HO(A), HO(R))) VF_WITNESS("first");
#else
	if (known(HO(A))) VF_WITNESS("te file");
#endif
	vf_expect_rest();
}
