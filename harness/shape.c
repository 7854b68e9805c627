/* Checks of statement shape: S-003, S-004, S-005, S-006, S-008, C-004, E-009, E-010 */
#include "world.h"
/*@policy m1.te if CASE==0
policy_module(m1, 1.0)
allow a_t b_t:file read;;
;
optional_policy(`
	;
	foo(x);
	ifdef(`x',`
		type z_t;;
	')
')
@*/
/*@policy m1.if if CASE==1
interface(`i1',`
	HOLE_A(x)
	optional_policy(`
		HOLE_B()
	')
')
interface(`i2',`
	HOLE_A($1)
')
template(`tt',`
	HOLE_A(x)
	ifdef(`x',`
		HOLE_B(y)
	')
')
@*/
/*@policy m1.te if CASE==2
policy_module(m1, 1.0)
HOLE_A(x)
optional_policy(`
	HOLE_B(x)
')
@*/
/*@policy m1.if if CASE==3
interface(`i1',`
	gen_require(`
		type HOLE_A;
		class file read;
	')
	type HOLE_B;
	attribute HOLE_B;
	role HOLE_B;
	optional_policy(`
		require {
			bool HOLE_A;
		}
		attribute_role HOLE_B;
	')
	ifdef(`x',`
		type HOLE_B, HOLE_A;
	')
	gen_bool(HOLE_B, true)
')
template(`t1',`
	type HOLE_B;
	optional_policy(`
		attribute HOLE_B;
	')
')
@*/
/*@policy m1.te if CASE==4
policy_module(m1, 1.0)
type HOLE_A;
gen_require(`
	type HOLE_A;
')
optional_policy(`
	attribute HOLE_A;
')
@*/
/*@policy m1.te if CASE==5
module m1 1.0;
gen_require(`
	type HOLE_A;
')
optional_policy(`
	gen_require(
		type HOLE_B;
	)
	require {
		type HOLE_B;
	}
')
@*/
/*@policy m1.if if CASE==6
interface(`i1',`
	allow a_t b_t:file read;
')
## c
interface(`i2',`
	allow a_t b_t:file read;
')
# c
template(`i3',`
	allow a_t b_t:file read;
')
template(`i4',`
	allow a_t b_t:file read;
')
@*/
/*@policy m1.te if CASE==7
policy_module(m1, 1.0)
optional_policy(`
	allow a_t b_t:file read;
	allow a_t b_t:file read;
	allow a_t b_t:file read;
')
gen_require(`
	type a_t;
	class file read;
')
ifdef(`x',`
	require {
		type a_t;
	}
')
optional_policy(`
')
optional_policy(`
	# only a comment
	;
	;
')
@*/
static bool quiet(unsigned f) { return f == NODE_START_BLOCK || f == NODE_COMMENT || f == NODE_SEMICOLON; }
void vf_main(void)
{
	struct policy_node *n;
#if CASE == 0
	vf_run_check("S-003", "m1.te", FILE_TE_FILE, "m1", NULL);
	vf_expect(2, true, "a semicolon that ends no statement is reported");
	vf_expect(3, true, "a semicolon that ends no statement is reported");
	vf_expect(5, true, "a semicolon that ends no statement is reported in nested blocks");
	vf_expect(6, true, "a semicolon after a call is reported");
	vf_expect(8, true, "a semicolon that ends no statement is reported in nested blocks");
	VF_WITNESS("semicolons");
#elif CASE == 1 || CASE == 2
	static char t1[4], t2[4];
	vf_ident(t1, 1, 3); vf_ident(t2, 1, 3);
	ID3(A); ID3(B);
	struct policy_node *ast = vf_parse(CASE == 1 ? "m1.if" : "m1.te", CASE == 1 ? NODE_IF_FILE : NODE_TE_FILE);
	VF_ASSERT(ast != NULL, "the file is accepted");
	VF_ASSUME(ast != NULL);
	struct check_data d = vf_cd("m1", CASE == 1 ? "m1.if" : "m1.te", CASE == 1 ? FILE_IF_FILE : FILE_TE_FILE, NULL);
	insert_template_into_template_map(t1);
	insert_template_into_template_map(t2);
	vf_sweep(vf_only("S-004"), &d, ast, "S-004");
#if CASE == 1
#define TPL(x) (vf_eq(HO(x), t1) || vf_eq(HO(x), t2) || vf_eq(HO(x), "tt"))
	bool a = TPL(A), b = TPL(B);
	vf_expect(2, a, "a call in an interface is reported exactly if the called name is a template");
	vf_expect(4, b, "a call in a nested block of an interface is judged the same way");
	vf_expect(8, a, "a call in an interface is reported exactly if the called name is a template");
	vf_expect(11, false, "a call in a template is not reported");
	if (a) VF_WITNESS("template called"); else VF_WITNESS("no template");
#else
	if (vf_eq(HO(A), t1)) VF_WITNESS("te file may call templates");
#endif
#elif CASE == 3
	ID2(A); ID2(B);
	vf_run_check("S-005", "m1.if", FILE_IF_FILE, "m1", NULL);
	vf_expect(6, true, "a type declared in an interface is reported");
	vf_expect(7, true, "an attribute declared in an interface is reported");
	vf_expect(8, true, "a role declared in an interface is reported");
	vf_expect(13, true, "a declaration in a nested block of an interface is reported");
	vf_expect(16, true, "a declaration in a nested block of an interface is reported");
	vf_expect(18, true, "a boolean declared in an interface is reported");
	VF_WITNESS("declarations");
#elif CASE == 4
	ID2(A);
	vf_run_check("S-005", "m1.te", FILE_TE_FILE, "m1", NULL);
	VF_WITNESS("te file");
#elif CASE == 5
	ID2(A); ID2(B);
	struct policy_node *ast = vf_parse("m1.te", NODE_TE_FILE);
	VF_ASSERT(ast != NULL, "the file is accepted");
	VF_ASSUME(ast != NULL);
	struct check_data d = vf_cd("m1", "m1.te", FILE_TE_FILE, NULL);
	n = vf_nth(ast, NODE_HEADER, 0);
	vf_sweep(vf_only("S-006"), &d, ast, "S-006");
	vf_expect(1, true, "a bare module statement is reported");
	vf_expect_rest();
	vf_hits[1] = 0;
	struct header_data *h = n->data.h_data;
	h->flavor = HEADER_MACRO;
	vf_sweep(vf_only("S-006"), &d, ast, "S-006");
	vf_expect(1, false, "policy_module() is not reported");
	vf_expect_rest();
	vf_hits[1] = 0;
	vf_sweep(vf_only("S-008"), &d, ast, "S-008");
	vf_expect(2, false, "a quoted gen_require is not reported");
	vf_expect(6, true, "an unquoted gen_require is reported");
	VF_WITNESS("unquoted");
#elif CASE == 6
	struct policy_node *ast = vf_parse("m1.if", NODE_IF_FILE);
	VF_ASSERT(ast != NULL, "the file is accepted");
	VF_ASSUME(ast != NULL);
	struct check_data d = vf_cd("m1", "m1.if", FILE_IF_FILE, NULL);
	struct checks *ck = vf_only("C-004");
	vf_sweep(ck, &d, ast, "C-004");
	vf_expect(1, true, "an interface without a comment before it is reported");
	vf_expect(5, false, "an interface after a comment is not reported");
	vf_expect(9, false, "a template after a comment is not reported");
	vf_expect(12, true, "a template without a comment before it is reported");
	vf_expect_rest();
	for (unsigned i = 0; i < VF_LINES; i++) vf_hits[i] = 0;
	unsigned f = vf_u(NODE_ERROR + 1);
	n = vf_nth(ast, NODE_TEMP_DEF, 0);
	n->prev->flavor = f;
	bool ok, r = vf_lint(ck, &d, n, "C-004", &ok);
	VF_ASSERT(ok && r == (f != NODE_COMMENT), "a definition is reported exactly if what precedes it is not a comment");
	if (r) VF_WITNESS("reported"); else VF_WITNESS("silent");
#elif CASE == 7
	struct policy_node *ast = vf_parse("m1.te", NODE_TE_FILE);
	VF_ASSERT(ast != NULL, "the file is accepted");
	VF_ASSUME(ast != NULL);
	struct check_data d = vf_cd("m1", "m1.te", FILE_TE_FILE, NULL);
	struct checks *ck = vf_only("E-009");
	vf_sweep(ck, &d, ast, "E-009");
	vf_expect(16, true, "an optional block without any statement is reported");
	vf_expect(18, true, "an optional block of comments and semicolons is reported");
	vf_expect_rest();
	unsigned f1 = vf_u(NODE_ERROR + 1), f2 = vf_u(NODE_ERROR + 1), f3 = vf_u(NODE_ERROR + 1);
	struct policy_node *o = vf_nth(ast, NODE_OPTIONAL_POLICY, 0), *g = vf_nth(ast, NODE_GEN_REQ, 0), *q = vf_nth(ast, NODE_REQUIRE, 0);
	n = o->first_child->next;
	n->flavor = f1;
	n = n->next; n->flavor = f2;
	n = n->next; n->flavor = f3;
	n = g->first_child->next;
	n->flavor = f1;
	n = n->next; n->flavor = f2;
	n = q->first_child->next;
	n->flavor = f1;
	bool ok1, ok2, ok3;
	bool r1 = vf_lint(ck, &d, o, "E-009", &ok1), r2 = vf_lint(ck, &d, g, "E-009", &ok2), r3 = vf_lint(ck, &d, q, "E-009", &ok3);
	VF_ASSERT(ok1 && r1 == (quiet(f1) && quiet(f2) && quiet(f3)), "an optional block is reported exactly if no child is a statement");
	VF_ASSERT(ok2 && r2 == (quiet(f1) && quiet(f2)), "a gen_require is reported exactly if no child is a statement");
	VF_ASSERT(ok3 && r3 == quiet(f1), "a require block is reported exactly if no child is a statement");
	if (r1) VF_WITNESS("empty"); else if (r2) VF_WITNESS("last statement"); else if (quiet(f2)) VF_WITNESS("first statement");
#endif
#if CASE < 6
	vf_expect_rest();
#endif
}
