/* C-007: a type named as its own target instead of self. */
#include "world.h"
/*@policy m1.te
policy_module(m1, 1.0)
allow HOLE_A HOLE_B:file read;
dontauditxperm HOLE_A HOLE_B:file ioctl 0x1;
allow { HOLE_A HOLE_B } HOLE_A:file read;
allow HOLE_A { HOLE_A self }:file read;
optional_policy(`
	neverallow HOLE_B HOLE_A:{ file dir } { read write };
')
auditallow HOLE_A self:file read;
@*/
void vf_main(void)
{
	insert_into_decl_map("a_t", "m1", DECL_TYPE);
	insert_into_decl_map("self", "m2", DECL_TYPE);
	insert_into_decl_map("b_a", "m2", DECL_ATTRIBUTE);
	insert_into_decl_map("$b", "m2", DECL_TYPE);
	ID4(A); ID4(B);
	vf_run_check("C-007", "m1.te", FILE_TE_FILE, "m1", NULL);
	const char *a = HO(A);
	unsigned n = 0;
	while (a[n]) n++;
	bool par = a[0] == '$';
	bool named = par ? n >= 2 && a[n - 2] == '_' && a[n - 1] == 't' : vf_eq(a, "a_t");
	bool e = vf_eq(a, HO(B)) && named;
	vf_expect(2, e, "a rule is reported exactly if its only source, a known type or a parameter with the type suffix, is also its only target");
	vf_expect(3, e, "an extended permission rule is judged the same way");
	vf_expect(7, e, "a rule in a nested block is judged the same way");
	vf_expect_rest();
	if (e && par) VF_WITNESS("parameter"); else if (e) VF_WITNESS("type"); else if (vf_eq(a, HO(B))) VF_WITNESS("same but no type");
}
