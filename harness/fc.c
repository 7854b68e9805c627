/* File-context checks: W-004, S-002, S-007, E-002, E-003, E-004, E-005 */
#include "world.h"
#ifndef NP
#define NP 10
#endif
/*@lines none
@*/
static struct policy_node *entry(const char *path, char obj, bool gen, const char *u, const char *r, const char *t, const char *range)
{
	struct fc_entry *e = malloc(sizeof *e);
	e->path = (char *)path;
	e->obj = obj;
	e->context = malloc(sizeof *e->context);
	e->context->has_gen_context = gen;
	e->context->user = (char *)u;
	e->context->role = (char *)r;
	e->context->type = (char *)t;
	e->context->range = (char *)range;
	struct policy_node *file = calloc(1, sizeof *file);
	file->flavor = NODE_FC_FILE;
	union node_data nd;
	nd.fc_data = e;
	insert_policy_node_next(file, NODE_FC_ENTRY, nd, 7);
	return file;
}
#if CASE == 0
/* what the path looks like to a reader: brackets hide everything up to the
 * first ] that no backslash precedes */
static bool suspicious(const char *p)
{
	bool in = false, bad = false;
	for (unsigned i = 0; i < NP; i++) {
		if (!p[i]) break;
		char b = i ? p[i - 1] : '\0', a = p[i + 1];
		if (in) { if (p[i] == ']' && b != '\\') in = false; continue; }
		if (p[i] == '[' && b != '\\') { in = true; continue; }
		if (p[i] == '.' && b != '\\' && a != '*' && a != '+' && a != '?') bad = true;
		if ((p[i] == '*' || p[i] == '+') && b != '\\' && b != '.' && b != ']' && b != ')') bad = true;
	}
	return bad;
}
void vf_main(void)
{
	static char path[NP + 2];
	vf_str(path, NP);
	struct policy_node *ast = entry(path, 0, true, "u", "r", "t", NULL);
	struct check_data d = vf_cd("m1", "m1.fc", FILE_FC_FILE, NULL);
	vf_sweep(vf_only("W-004"), &d, ast, "W-004");
	bool e = suspicious(path);
	vf_expect(7, e, "a path is reported exactly if, outside brackets, it has a dot that is neither escaped nor repeated, or a repetition of a single character");
	vf_expect_rest();
	if (e) VF_WITNESS("reported"); else if (path[0] == '[' && path[1] == '.') VF_WITNESS("bracket"); else if (path[0] == '.') VF_WITNESS("repeated dot");
}
#elif CASE == 1
void vf_main(void)
{
	static char u[4], r[4], t[4], du[4], dr[4], dt[4], ow[3];
	static struct config_check_data ccd;
	vf_ident(u, 1, 3); vf_ident(r, 1, 3); vf_ident(t, 1, 3);
	vf_ident(du, 1, 3); vf_ident(dr, 1, 3); vf_ident(dt, 1, 3);
	bool own = vf_b();
	ow[0] = own ? 'm' : 'o'; ow[1] = own ? '1' : '\0';
	insert_into_decl_map(du, "m", DECL_USER);
	insert_into_decl_map(dr, "m", DECL_ROLE);
	insert_into_decl_map(dt, ow, DECL_TYPE);
	insert_into_decl_map("z_t", "m1", DECL_TYPE);
	/* names of other kinds make nothing known */
	insert_into_decl_map("q", "m1", DECL_ATTRIBUTE_ROLE);
	insert_into_decl_map("q", "m1", DECL_BOOL);
	insert_into_decl_map("q", "m1", DECL_CLASS);
	insert_into_decl_map("q", "m1", DECL_PERM);
	bool gen = vf_b();
	ccd.skip_checking_generated_fcs = vf_b();
	struct policy_node *ast = entry("/x", 0, gen, u, r, t, NULL);
	struct fc_entry *e = ast->next->data.fc_data;
	struct sel_context *c = e->context;
	if (vf_b()) c->range = "s0";
	bool ranged = c->range != NULL;
	struct check_data d = vf_cd("m1", "m1.fc", FILE_FC_FILE, &ccd);
	bool ok1, ok2, ok3, ok4, ok5, ok6, ok7;
	bool r3 = vf_lint(vf_only("E-003"), &d, ast->next, "E-003", &ok1);
	bool r4 = vf_lint(vf_only("E-004"), &d, ast->next, "E-004", &ok2);
	bool r5 = vf_lint(vf_only("E-005"), &d, ast->next, "E-005", &ok3);
	bool s2 = vf_lint(vf_only("S-002"), &d, ast->next, "S-002", &ok4);
	bool s7 = vf_lint(vf_only("S-007"), &d, ast->next, "S-007", &ok5);
	VF_ASSERT(ok1 && r3 == !vf_eq(u, du), "a user is reported exactly if it is not known");
	VF_ASSERT(ok2 && r4 == !vf_eq(r, dr), "a role is reported exactly if it is not known");
	bool known = vf_eq(t, dt) || vf_eq(t, "z_t");
	bool mine = vf_eq(t, dt) ? own : true;
	if (vf_eq(dt, "z_t")) VF_ASSUME(own);
	VF_ASSERT(ok3 && r5 == !known, "a type is reported as nonexistent exactly if it is not known");
	VF_ASSERT(ok4 && s2 == (known && !mine), "a known type is reported exactly if another module declares it");
	VF_ASSERT(ok5 && s7 == (gen && !ranged), "a gen_context is reported exactly if it has no level");
	e->context = NULL;
	r3 = vf_lint(vf_only("E-003"), &d, ast->next, "E-003", &ok1);
	r4 = vf_lint(vf_only("E-004"), &d, ast->next, "E-004", &ok2);
	r5 = vf_lint(vf_only("E-005"), &d, ast->next, "E-005", &ok3);
	s2 = vf_lint(vf_only("S-002"), &d, ast->next, "S-002", &ok4);
	s7 = vf_lint(vf_only("S-007"), &d, ast->next, "S-007", &ok5);
	VF_ASSERT(ok1 && ok2 && ok3 && ok4 && ok5 && !r3 && !r4 && !r5 && !s2 && !s7, "an entry without context is never reported");
	union node_data nd;
	nd.str = NULL;
	insert_policy_node_next(ast->next, NODE_ERROR, nd, 9);
	bool e2 = vf_lint(vf_only("E-002"), &d, ast->next->next, "E-002", &ok6);
	bool f2 = vf_lint(vf_only("E-002"), &d, ast->next, "E-002", &ok7);
	VF_ASSERT(ok6 && ok7 && e2 && !f2, "exactly the lines that are no entries are reported as malformed");
	if (known && !mine) VF_WITNESS("foreign type"); else if (!known) VF_WITNESS("unknown type"); else VF_WITNESS("own type");
}
#else
void vf_main(void)
{
	static char fn[16];
	static struct config_check_data ccd;
	VF_PICK(fn, "base.fc", "all_mods.fc", "x.mod.fc", "x.fc", "xbase.fc", "mod.fc", "base.fcx");
	insert_into_decl_map("a_t", "o", DECL_TYPE);
	ccd.skip_checking_generated_fcs = vf_b();
	struct policy_node *ast = entry("/x", 0, true, "u", "r", "a_t", NULL);
	struct check_data d = vf_cd("m1", fn, FILE_FC_FILE, &ccd);
	bool generated = vf_eq(fn, "base.fc") || vf_eq(fn, "all_mods.fc") || vf_eq(fn, "x.mod.fc");
	struct checks *ck = vf_only("S-002");
	found_issue = 0;
	call_checks(ck, &d, ast->next);
	VF_ASSERT((found_issue != 0) == !(ccd.skip_checking_generated_fcs && generated), "types in generated file-context files are skipped exactly if so configured");
	if (generated && found_issue) VF_WITNESS("generated but checked"); else if (generated) VF_WITNESS("skipped");
}
#endif
