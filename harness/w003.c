/* W-003: names required in an interface or template but not used after the require block. */
#include "world.h"
/*@policy m1.if if CASE==0
interface(`foo',`
	gen_require(`
		type HOLE_R;
		attribute HOLE_S;
	')
	allow HOLE_A { HOLE_B -HOLE_C }:file read;
	optional_policy(`
		bar(HOLE_D)
	')
')
@*/
/*@policy m1.if if CASE==1
interface(`fou',`
	allow HOLE_D self:file read;
')
template(`foo',`
	allow HOLE_A self:file read;
	require {
		role HOLE_R;
		attribute_role HOLE_S;
		bool HOLE_R;
		class file { read HOLE_R };
	}
	type_transition HOLE_B self:process HOLE_C;
')
@*/
/*@policy m1.if if CASE==2
interface(`HOLE_I',`
	gen_require(`
		type HOLE_R;
	')
	role HOLE_A types HOLE_B;
')
template(`HOLE_I',`
	gen_require(`
		type HOLE_S;
	')
	typeattribute HOLE_C HOLE_D;
')
@*/
/*@policy m1.if if CASE==3
interface(`foo',`
	optional_policy(`
		gen_require(`
			type HOLE_R;
		')
		ifdef(`x',`
			tunable_policy(`y',`
				allow HOLE_A self:file read;
			')
		')
		permissive HOLE_B;
	')
	gen_require(`
		type HOLE_S;
	')
	ifdef(`z',`
		allow HOLE_C self:file read;
	',`
		roleattribute HOLE_D self_a;
	')
')
@*/
/*@policy m1.te if CASE==4
policy_module(m1, 1.0)
gen_require(`
	type HOLE_R;
')
allow HOLE_A HOLE_B:file read;
type HOLE_C;
optional_policy(`
	require {
		role HOLE_S;
	}
	allow HOLE_D self:file read;
')
@*/
/*@policy m1.if if CASE==5
interface(`foo',`
	gen_require(`
		type HOLE_R;
		type HOLE_S;
	')
	role_transition HOLE_A self HOLE_B;
	type x_t, HOLE_C;
	allowxperm x_t HOLE_D:file ioctl 0x1;
')
@*/
static bool used(const char *n) { return vf_eq(n, HO(A)) || vf_eq(n, HO(B)) || vf_eq(n, HO(C)) || vf_eq(n, HO(D)); }
void vf_main(void)
{
	ID3(A); ID3(B); ID3(C); ID3(D); ID3(R); ID3(S);
	bool stub = false;
#if CASE == 2
	stub = VF_PICK(HO(I), "foo", "a_stub", "stub", "a_stubs", "_stub", "a_stub_b") % 3 == 1;
	VF_ASSUME(!vf_eq(HO(I), "_stub"));   /* not an identifier */
#endif
	vf_run_check("W-003", CASE == 4 ? "m1.te" : "m1.if", CASE == 4 ? FILE_TE_FILE : FILE_IF_FILE, "m1", NULL);
	(void)stub;
#if CASE == 0
	vf_expect(3, !used(HO(R)), "a required type is reported exactly if nothing after the require uses it");
	vf_expect(4, !used(HO(S)), "a required attribute is reported exactly if nothing after the require uses it");
	if (!used(HO(R))) VF_WITNESS("unused"); else if (vf_eq(HO(R), HO(D))) VF_WITNESS("nested use"); else if (vf_eq(HO(R), HO(C))) VF_WITNESS("excluded use");
#elif CASE == 1
	vf_expect(7, !vf_eq(HO(R), HO(B)) && !vf_eq(HO(R), HO(C)), "a required role is reported exactly if nothing after the require uses it");
	vf_expect(8, !vf_eq(HO(S), HO(B)) && !vf_eq(HO(S), HO(C)), "a required attribute role is reported exactly if nothing after the require uses it");
	if (vf_eq(HO(S), HO(A))) VF_WITNESS("earlier use"); else if (vf_eq(HO(S), HO(D))) VF_WITNESS("use in another interface"); else if (vf_eq(HO(S), HO(B))) VF_WITNESS("used");
#elif CASE == 2
	vf_expect(3, !stub && !vf_eq(HO(R), HO(A)) && !vf_eq(HO(R), HO(B)), "an interface is checked unless its name ends with _stub");
	vf_expect(9, !vf_eq(HO(S), HO(C)) && !vf_eq(HO(S), HO(D)), "a template is checked whatever its name");
	if (stub) VF_WITNESS("stub"); else VF_WITNESS("ordinary");
#elif CASE == 3
	vf_expect(4, !vf_eq(HO(R), HO(A)) && !vf_eq(HO(R), HO(B)), "uses nested at any depth after the require count");
	vf_expect(14, !vf_eq(HO(S), HO(C)) && !vf_eq(HO(S), HO(D)), "uses in any branch of a later block count");
	if (vf_eq(HO(R), HO(A))) VF_WITNESS("deep use"); else if (vf_eq(HO(S), HO(B))) VF_WITNESS("earlier use");
#elif CASE == 5
	vf_expect(3, !used(HO(R)) && !vf_eq(HO(R), "x_t"), "transitions, declarations and extended permission rules are uses");
	vf_expect(4, !used(HO(S)) && !vf_eq(HO(S), "x_t"), "transitions, declarations and extended permission rules are uses of the second name");
	if (used(HO(R))) VF_WITNESS("used"); else VF_WITNESS("unused");
#else
	if (!used(HO(R))) VF_WITNESS("te file");
#endif
	vf_expect_rest();
}
