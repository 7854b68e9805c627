/* C-005: permissions listed out of order or repeatedly. */
#include "world.h"
/*@policy m1.te if CASE==0
policy_module(m1, 1.0)
allow a_t b_t:file { HOLE_A HOLE_B HOLE_C };
neverallow a_t b_t:file ~{ HOLE_A HOLE_B };
dontaudit a_t b_t:file HOLE_A;
auditallow a_t b_t:file ~HOLE_A;
allow a_t { b_t a_t }:{ file dir } { HOLE_B -HOLE_C };
@*/
/*@policy m1.te if CASE==1
policy_module(m1, 1.0)
dontauditxperm a_t b_t:file ioctl { HOLE_A HOLE_B HOLE_C };
allowxperm a_t b_t:file ioctl ~{ HOLE_A HOLE_B };
neverallowxperm a_t b_t:file ioctl { HOLE_D - HOLE_E HOLE_F };
auditallowxperm a_t b_t:file ioctl HOLE_A;
@*/
/*@policy m1.if if CASE==2
interface(`foo',`
	gen_require(`
		class file { HOLE_A HOLE_B };
		class dir HOLE_A;
		type z_t, a_t;
		role z_r, a_r;
	')
	optional_policy(`
		allow a_t b_t:file { HOLE_A HOLE_B };
	')
')
@*/
static int cmp(const char *a, const char *b)
{
	unsigned i = 0;
	while (a[i] && a[i] == b[i]) i++;
	return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
static bool up(const char *a, const char *b) { return cmp(a, b) < 0; }
#if CASE == 2
#define VF_C ""
#else
#define VF_C HO(C)
#endif
void vf_main(void)
{
#if CASE == 2
	ID2(A); ID2(B);
#else
	ID3(A); ID3(B); ID3(C);
#endif
#if CASE == 1
	VF_PICK(vf_hole_D, "0x1", "0x2", "0x12", "7"); VF_PICK(vf_hole_E, "0x1", "0x2", "0x12", "7"); VF_PICK(vf_hole_F, "0x1", "0x2", "0x12", "7");
#endif
	vf_run_check("C-005", CASE == 2 ? "m1.if" : "m1.te", CASE == 2 ? FILE_IF_FILE : FILE_TE_FILE, "m1", NULL);
	bool ab = up(HO(A), HO(B)), bc = CASE != 2 && up(HO(B), VF_C);
#if CASE == 0
	vf_expect(2, !(ab && bc), "an access rule is reported exactly if its permissions are not strictly ascending");
	vf_expect(3, !ab, "a complemented permission set is ordered like a plain one");
	char mc[6] = "-";
	for (unsigned i = 0; i < 4; i++) mc[i + 1] = VF_C[i];
	vf_expect(6, !up(HO(B), mc), "neighbouring permissions are compared as written");
	if (ab && bc) VF_WITNESS("ordered"); else if (vf_eq(HO(A), HO(B))) VF_WITNESS("repeated"); else if (ab) VF_WITNESS("late");
#elif CASE == 1
	vf_expect(2, !(ab && bc), "an extended permission rule is reported exactly if its permissions are not strictly ascending");
	vf_expect(3, !ab, "a complemented extended permission set is ordered like a plain one");
	vf_expect(4, !up(HO(E), HO(F)), "the bounds of a range are ordered against their outer neighbours only");
	if (ab && bc) VF_WITNESS("ordered"); else if (vf_eq(HO(B), VF_C)) VF_WITNESS("repeated");
#else
	vf_expect(3, !ab, "a required class is reported exactly if its permissions are not strictly ascending");
	vf_expect(9, !ab, "an access rule in an interface is reported exactly if its permissions are not strictly ascending");
	if (ab) VF_WITNESS("ordered"); else VF_WITNESS("unordered");
#endif
	vf_expect_rest();
}
