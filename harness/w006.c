/* W-006 and W-007: interface call arguments. */
#include "world.h"
/*@policy m1.te if CASE <= 1
policy_module(m1, 1.0)
HOLE_A()
HOLE_A(HOLE_B)
HOLE_A({ HOLE_B HOLE_C })
HOLE_A(HOLE_B HOLE_C)
HOLE_A(HOLE_B, HOLE_C - HOLE_D)
HOLE_A(HOLE_B -HOLE_C HOLE_D)
HOLE_A(`HOLE_B HOLE_C', HOLE_D)
HOLE_A(`')
HOLE_A(HOLE_B, HOLE_C)
@*/
/*@policy m1.if if CASE >= 2
interface(`foo',`
	HOLE_A()
	optional_policy(`
		HOLE_A(HOLE_B, HOLE_C HOLE_D)
		HOLE_A(~{ HOLE_B HOLE_C }, HOLE_D)
		HOLE_A(HOLE_B, HOLE_C -HOLE_D)
	')
')
@*/
static bool known(const char *n)
{
	return vf_eq(n, "a_t") || vf_eq(n, "b_a") || vf_eq(n, "c_r") || vf_eq(n, "d_r") || vf_eq(n, "e_u");
}
void vf_main(void)
{
	insert_into_decl_map("a_t", "o", DECL_TYPE);
	insert_into_decl_map("b_a", "o", DECL_ATTRIBUTE);
	insert_into_decl_map("c_r", "o", DECL_ATTRIBUTE_ROLE);
	insert_into_decl_map("d_r", "m1", DECL_ROLE);
	insert_into_decl_map("e_u", "m1", DECL_USER);
	insert_into_decl_map("p_p", "m1", DECL_PERM);
	ID3(A); ID3(B); ID3(C); ID3(D);
	vf_run_check(CASE % 2 ? "W-007" : "W-006", CASE >= 2 ? "m1.if" : "m1.te", CASE >= 2 ? FILE_IF_FILE : FILE_TE_FILE, "m1", NULL);
#if CASE == 0
	vf_expect(2, true, "a call without arguments is reported, no other call is");
	VF_WITNESS("empty call");
#elif CASE == 2
	vf_expect(2, true, "a call without arguments is reported, no other call is");
	VF_WITNESS("empty call");
#elif CASE == 1
	vf_expect(5, true, "words separated by a space in one argument are reported");
	vf_expect(6, known(HO(C)), "an exclusion after a space is reported exactly if the word before it is a declared identifier");
	vf_expect(7, true, "words separated by a space in one argument are reported even after a range-like pair");
	if (known(HO(C))) VF_WITNESS("exclusion"); else VF_WITNESS("range");
#else
	vf_expect(4, true, "words separated by a space in a later argument are reported");
	vf_expect(6, known(HO(C)), "an exclusion after a space is reported exactly if the word before it is a declared identifier");
	if (known(HO(C))) VF_WITNESS("exclusion"); else VF_WITNESS("range");
#endif
	vf_expect_rest();
}
