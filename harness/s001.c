/* S-001, S-003, S-006, S-008, C-004, S-004, S-005, E-009: shape-of-statement checks */
#include "world.h"
/*@policy m1.te if CASE==0
policy_module(m1, 1.0)
require {
	class file HOLE_A;
	class dir { HOLE_B HOLE_C };
}
require {
	class file HOLE_A;
	type HOLE_B;
}
gen_require(`
	bool HOLE_A;
')
gen_require(`
	class HOLE_A HOLE_B;
')
optional_policy(`
	gen_require(`
		attribute HOLE_C;
		class HOLE_A HOLE_B;
	')
	require {
		role HOLE_C;
	}
')
@*/
/*@policy m1.if if CASE==1
interface(`HOLE_A',`
	gen_require(`
		type HOLE_B;
	')
')
template(`HOLE_A',`
	require {
		type HOLE_C;
	}
')
@*/
void vf_main(void)
{
	ID3(A); ID3(B); ID3(C);
	vf_run_check("S-001", CASE == 1 ? "m1.if" : "m1.te", CASE == 1 ? FILE_IF_FILE : FILE_TE_FILE, "m1", NULL);
#if CASE == 0
	vf_expect(2, false, "a require block of classes and permissions only is not reported");
	vf_expect(6, true, "a require block naming anything but classes is reported");
	vf_expect(10, true, "a gen_require naming anything but classes is reported");
	vf_expect(13, false, "a gen_require of classes and permissions only is not reported");
	vf_expect(17, true, "a nested gen_require naming anything but classes is reported");
	vf_expect(21, true, "a nested require block naming anything but classes is reported");
	VF_WITNESS("te file");
#else
	VF_WITNESS("interface file");
#endif
	vf_expect_rest();
}
