/* W-011: interface files requiring declarations of other modules. */
#include "world.h"
/*@policy m1.if if CASE==0
interface(`foo',`
	gen_require(`
		type HOLE_A;
		attribute HOLE_B;
		role HOLE_C;
	')
	allow HOLE_A HOLE_B:file read;
')
@*/
/*@policy m1.if if CASE==1
template(`foo',`
	optional_policy(`
		require {
			attribute_role HOLE_A;
			bool HOLE_B;
			class file { HOLE_C };
			type HOLE_C;
		}
	')
	typeattribute HOLE_C z_a;
')
@*/
/*@policy m1.te if CASE==2
policy_module(m1, 1.0)
require {
	type HOLE_A;
	attribute HOLE_B;
	role HOLE_C;
}
@*/
static char ow0[7], ow1[7], ow2[7], ow3[7], ow4[7], ow5[7];
static char *const ow[6] = { ow0, ow1, ow2, ow3, ow4, ow5 };
static const int fl[6] = { DECL_TYPE, DECL_ATTRIBUTE, DECL_ROLE, DECL_ATTRIBUTE_ROLE, DECL_BOOL, DECL_ROLE };
static const char *const nm[6] = { "a_t", "b_a", "c_r", "d_q", "e_b", "f_r" };
static bool bad(const char *n, int flavor)
{
	if (n[0] == '$') return false;
	for (unsigned i = 0; i < 6; i++)
		if (fl[i] == flavor && vf_eq(n, nm[i]))
			return !vf_eq(ow[i], "m1") && !(flavor == DECL_ROLE && vf_eq(ow[i], "kernel"));
	return true;
}
void vf_main(void)
{
	for (unsigned i = 0; i < 6; i++) {
		static const char *const o[3] = { "m1", "o", "kernel" };
		vf_pick(ow[i], o, 3, 6);
		insert_into_decl_map(nm[i], ow[i], fl[i]);
	}
	ID3(A); ID3(B); ID3(C);
	vf_run_check("W-011", CASE == 2 ? "m1.te" : "m1.if", CASE == 2 ? FILE_TE_FILE : FILE_IF_FILE, "m1", NULL);
#if CASE == 0
	vf_expect(3, bad(HO(A), DECL_TYPE), "a required type is reported exactly if it is not this module's");
	vf_expect(4, bad(HO(B), DECL_ATTRIBUTE), "a required attribute is reported exactly if it is not this module's");
	vf_expect(5, bad(HO(C), DECL_ROLE), "a required role is reported exactly if it is neither this module's nor the kernel's");
	if (bad(HO(C), DECL_ROLE)) VF_WITNESS("role reported"); else if (vf_eq(HO(C), "f_r")) VF_WITNESS("role silent"); else if (HO(C)[0] == '$') VF_WITNESS("parameter");
#elif CASE == 1
	vf_expect(4, bad(HO(A), DECL_ATTRIBUTE_ROLE), "a required attribute role is reported exactly if it is not this module's");
	vf_expect(5, bad(HO(B), DECL_BOOL), "a required boolean is reported exactly if it is not this module's");
	vf_expect(7, bad(HO(C), DECL_TYPE), "a required type is reported exactly if it is not this module's, also next to class requires");
	if (bad(HO(A), DECL_ATTRIBUTE_ROLE)) VF_WITNESS("reported"); else VF_WITNESS("silent");
#else
	if (bad(HO(A), DECL_TYPE)) VF_WITNESS("te file");
#endif
	vf_expect_rest();
}
