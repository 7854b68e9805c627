/* W-005: interface calls into optional modules outside optional_policy. */
#include "world.h"
/*@policy m1.te if CASE==0
policy_module(m1, 1.0)
HOLE_A(x)
optional_policy(`
	ifdef(`y',`
		HOLE_A(x)
	')
	HOLE_B(x)
')
tunable_policy(`z',`
	HOLE_B(x)
')
@*/
/*@policy m1.if if CASE==1
interface(`foo',`
	HOLE_A(x)
	optional_policy(`
		HOLE_A(x)
	',`
		HOLE_B(x)
	')
	ifdef(`z',`
		HOLE_B()
	')
')
@*/
/*@policy m1.te if CASE==2
policy_module(m1, 1.0)
ifdef(`a',`
	tunable_policy(`b',`
		ifdef(`c',`
			HOLE_A(x)
		')
		HOLE_B(x)
	')
')
@*/
static char ow_a[3], ow_b[3];
static void owner(char *b) { bool own = vf_b(); b[0] = own ? 'm' : vf_b() ? 'o' : 'p'; b[1] = own ? '1' : '\0'; }
static char kind_o[7];
static bool bad(const char *n)
{
	const char *ow = vf_eq(n, "a_i") ? ow_a : vf_eq(n, "b_i") ? ow_b : NULL;
	if (!ow || ow[0] == 'm') return false;      /* no interface, or one of our own */
	if (ow[0] == 'p') return false;             /* module without configuration */
	return !vf_eq(kind_o, "base");
}
void vf_main(void)
{
	owner(ow_a); owner(ow_b);
	VF_PICK(kind_o, "base", "module", "off");
	insert_into_ifs_map("a_i", ow_a);
	insert_into_ifs_map("b_i", ow_b);
	insert_into_mods_map("o", kind_o);
	insert_into_mods_map("m1", "module");
	ID3(A); ID3(B);
#if CASE == 2
	/* any chain of enclosing blocks, including kinds and orders the grammar allows but no sample shows */
	struct policy_node *ast = vf_parse("m1.te", NODE_TE_FILE);
	VF_ASSERT(ast != NULL, "the file is accepted");
	VF_ASSUME(ast != NULL);
	struct policy_node *ca = vf_nth(ast, NODE_IF_CALL, 0), *cb = vf_nth(ast, NODE_IF_CALL, 1);
	bool opta = false, optb = false, out3 = false;
	unsigned depth = 0;
	for (struct policy_node *p = ca->parent; p->parent; p = p->parent, depth++) {
		unsigned f = vf_u(NODE_ERROR + 1);
		p->flavor = f;
		opta = opta || f == NODE_OPTIONAL_POLICY;
	}
	for (struct policy_node *p = cb->parent; p->parent; p = p->parent) {
		out3 = p->flavor == NODE_OPTIONAL_POLICY;
		optb = optb || p->flavor == NODE_OPTIONAL_POLICY;
	}
	VF_ASSERT(depth >= 3, "the blocks nest");
	struct check_data d = vf_cd("m1", "m1.te", FILE_TE_FILE, NULL);
	struct checks *ck = vf_only("W-005");
	bool oka, okb;
	
	bool ra = vf_lint(ck, &d, ca, "W-005", &oka), rb = vf_lint(ck, &d, cb, "W-005", &okb);
	bool ea = bad(HO(A)) && !opta;
	bool eb = bad(HO(B)) && !optb;
	VF_ASSERT(oka && ra == ea, "a call three blocks deep is excused exactly if one of the enclosing blocks is optional_policy");
	VF_ASSERT(okb && rb == eb, "a call two blocks deep is excused exactly if one of the enclosing blocks is optional_policy");
	if (ea) VF_WITNESS("not optional"); else if (bad(HO(A)) && out3 && !ea) VF_WITNESS("outermost optional");
#else
	vf_run_check("W-005", CASE == 1 ? "m1.if" : "m1.te", CASE == 1 ? FILE_IF_FILE : FILE_TE_FILE, "m1", NULL);
	bool a = bad(HO(A)), b = bad(HO(B));
	(void)a; (void)b;
#endif
#if CASE == 0
	vf_expect(2, a, "a top level call is reported exactly if it targets a non-base module's interface");
	vf_expect(10, b, "conditional blocks other than optional_policy do not excuse the call");
	if (a) VF_WITNESS("reported"); else if (vf_eq(HO(A), "a_i")) VF_WITNESS("excused"); else VF_WITNESS("no interface");
#elif CASE == 1
	vf_expect(2, a, "a call in an interface body is reported exactly if it targets a non-base module's interface");
	vf_expect(6, b, "the else branch is not optional");
	vf_expect(9, b, "conditional blocks other than optional_policy do not excuse the call");
	if (a) VF_WITNESS("reported"); else if (b) VF_WITNESS("else reported");
#endif
#if CASE != 2
	vf_expect_rest();
#endif
}
