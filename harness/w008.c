/* W-008: wildcard or complement permissions in allow rules. */
#include "world.h"
/*@policy m1.te if CASE==0
policy_module(m1, 1.0)
allow HOLE_A HOLE_B:HOLE_C HOLE_D;
allow HOLE_A HOLE_B:HOLE_C *;
allow HOLE_A HOLE_B:HOLE_C ~{ HOLE_D HOLE_E };
allow HOLE_A HOLE_B:HOLE_C { HOLE_D HOLE_E };
allow HOLE_A HOLE_B:HOLE_C ~HOLE_D;
allow ~HOLE_A *:HOLE_C HOLE_D;
allow HOLE_A ~{ HOLE_B HOLE_A }:* HOLE_D;
allow * HOLE_A:{ HOLE_B HOLE_C } { HOLE_D HOLE_E };
@*/
/*@policy m1.if if CASE==1
interface(`foo',`
	auditallow HOLE_A HOLE_B:HOLE_C *;
	dontaudit HOLE_A HOLE_B:HOLE_C *;
	neverallow HOLE_A HOLE_B:HOLE_C ~{ HOLE_D HOLE_E };
	dontaudit HOLE_A HOLE_B:HOLE_C ~HOLE_D;
	optional_policy(`
		allow HOLE_A HOLE_B:HOLE_C ~{ HOLE_D HOLE_E };
		allow HOLE_A HOLE_B:HOLE_C *;
	')
	allowxperm HOLE_A HOLE_B:HOLE_C ioctl ~{ 0x1 };
')
@*/
void vf_main(void)
{
	ID3(A); ID3(B); ID3(C); ID3(D); ID3(E);
	vf_run_check("W-008", CASE ? "m1.if" : "m1.te", CASE ? FILE_IF_FILE : FILE_TE_FILE, "m1", NULL);
#if CASE == 0
	vf_expect(3, true, "an allow rule with wildcard permission is reported");
	vf_expect(4, true, "an allow rule with a complemented permission set is reported");
	vf_expect(6, true, "an allow rule with a complemented permission is reported");
#else
	vf_expect(7, true, "an allow rule with a complemented permission set is reported in a nested block");
	vf_expect(8, true, "an allow rule with wildcard permission is reported in a nested block");
#endif
	VF_WITNESS("rules");
	vf_expect_rest();
}
