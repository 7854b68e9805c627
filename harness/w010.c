/* W-010: calls that look like a module's interface but are defined nowhere. */
#include "world.h"
/*@policy m1.te if CASE==0
policy_module(m1, 1.0)
b_c_d(x)
optional_policy(`
	a_b()
	ifdef(`x',`
		a__b(HOLE_A)
	')
')
nounder(y)
@*/
/*@policy m1.te if CASE==1
policy_module(m1, 1.0)
auth_a(x)
fs_a(x)
init_a(x)
logging_a(x)
libs_a(x)
miscfiles_a(x)
seutil_a(x)
sysnet_a(x)
term_a(x)
udev_a(x)
userdom_a(x)
corecmd_a(x)
corenet_a(x)
dev_a(x)
selinux_a(x)
storage_a(x)
@*/
/*@policy m1.te if CASE==2
policy_module(m1, 1.0)
domain_auto_transition_pattern(x)
domain_transition_pattern(x)
domain_transition_patterns(x)
domain_auto_trans(x)
c_d_e(x)
@*/
static char md0[16], md1[16], fi0[20], fi1[20];
static char *const md[2] = { md0, md1 }, *const fi[2] = { fi0, fi1 };
static bool in2(char *const *t, const char *s) { return vf_eq(t[0], s) || vf_eq(t[1], s); }
void vf_main(void)
{
#if CASE == 0
	vf_ident(md[0], 1, 3); vf_ident(md[1], 1, 3);
	vf_ident(fi[0], 1, 5); vf_ident(fi[1], 1, 4);
	ID2(A);
#elif CASE == 1
	VF_PICK(md0, "authlogin", "filesystem", "init", "logging", "libraries", "miscfiles", "selinuxutil", "sysnetwork", "terminal");
	VF_PICK(md1, "udev", "userdomain", "corecommands", "corenetwork", "devices", "selinux", "storage", "zz");
	VF_PICK(fi0, "auth_a", "fs_a", "logging_a", "miscfiles_a", "libs_a", "seutil_a");
	VF_PICK(fi1, "sysnet_a", "term_a", "userdom_a", "corecmd_a", "corenet_a", "dev_a");
#else
	VF_PICK(md0, "domain", "domain_auto", "domainn");
	VF_PICK(md1, "a", "c", "c_d");
	VF_PICK(fi0, "domain_auto_trans", "a_b");
	VF_PICK(fi1, "c_d_e", "d_e");
#endif
	insert_into_mods_map(md[0], "base");
	insert_into_mods_map(md[1], "off");
	insert_into_ifs_map(fi[0], "q");
	insert_into_ifs_map(fi[1], "q");
	vf_run_check("W-010", "m1.te", FILE_TE_FILE, "m1", NULL);
#if CASE == 0
	vf_expect(2, (in2(md, "b") || in2(md, "b_c")) && !in2(fi, "b_c_d"), "a call is reported exactly if a known module's name precedes one of its underscores and no such interface is known");
	vf_expect(4, in2(md, "a") && !in2(fi, "a_b"), "a call in a nested block is judged the same way");
	vf_expect(6, (in2(md, "a") || in2(md, "a_")) && !in2(fi, "a__b"), "a call with several underscores is judged at each of them");
	if (in2(md, "b_c") && !in2(fi, "b_c_d")) VF_WITNESS("second underscore"); else if (in2(md, "a") && in2(fi, "a_b")) VF_WITNESS("known");
#elif CASE == 1
#define ROW(line, call, abbr, mod) vf_expect(line, (in2(md, mod) || in2(md, abbr)) && !in2(fi, call), "the usual abbreviation of a known module counts as its name")
	ROW(2, "auth_a", "auth", "authlogin");
	ROW(3, "fs_a", "fs", "filesystem");
	vf_expect(4, in2(md, "init"), "a module name that is not abbreviated counts");
	vf_expect(5, in2(md, "logging") && !in2(fi, "logging_a"), "a module name that is not abbreviated counts");
	ROW(6, "libs_a", "libs", "libraries");
	vf_expect(7, in2(md, "miscfiles") && !in2(fi, "miscfiles_a"), "a module name that is not abbreviated counts");
	ROW(8, "seutil_a", "seutil", "selinuxutil");
	ROW(9, "sysnet_a", "sysnet", "sysnetwork");
	ROW(10, "term_a", "term", "terminal");
	vf_expect(11, in2(md, "udev"), "a module name that is not abbreviated counts");
	ROW(12, "userdom_a", "userdom", "userdomain");
	ROW(13, "corecmd_a", "corecmd", "corecommands");
	ROW(14, "corenet_a", "corenet", "corenetwork");
	ROW(15, "dev_a", "dev", "devices");
	vf_expect(16, in2(md, "selinux"), "a module name that is not abbreviated counts");
	vf_expect(17, in2(md, "storage"), "a module name that is not abbreviated counts");
	if (in2(md, "filesystem") && in2(fi, "fs_a")) VF_WITNESS("known interface"); else if (in2(md, "filesystem")) VF_WITNESS("abbreviation");
#else
	vf_expect(4, in2(md, "domain"), "a support macro is exempt only under its exact name");
	vf_expect(5, (in2(md, "domain") || in2(md, "domain_auto")) && !in2(fi, "domain_auto_trans"), "a support macro is exempt only under its exact name");
	vf_expect(6, (in2(md, "c") || in2(md, "c_d")) && !in2(fi, "c_d_e"), "a call is reported exactly if a known module's name precedes one of its underscores and no such interface is known");
	if (in2(md, "domain")) VF_WITNESS("macros exempt");
#endif
	vf_expect_rest();
}
