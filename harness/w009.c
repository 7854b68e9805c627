/* W-009: module name versus file name. */
#include "world.h"
/*@policy m1.te if CASE==0
policy_module(HOLE_A, 1.0)
allow x y:file read;
@*/
/*@policy m1.te if CASE==1
module HOLE_A 1.0.3;
allow x y:file read;
@*/
static char fname[9];
void vf_main(void)
{
	vf_ident(vf_hole_A, 1, 5);
	vf_str(fname, 8);
	VF_ASSUME(fname[0] != '\0');
	struct policy_node *ast = vf_parse("m1.te", NODE_TE_FILE);
	VF_ASSERT(ast != NULL, "the file is accepted");
	struct checks *ck = vf_only("W-009");
	struct check_data d = vf_cd("m1", fname, FILE_TE_FILE, NULL);
	suppress_output = 1;
	/* the file's base name is everything before the last dot */
	unsigned len = 0, cut;
	while (fname[len]) len++;
	cut = len;
	for (unsigned i = 0; i < len; i++) if (fname[i] == '.') cut = i;
	bool same = true;
	for (unsigned i = 0; i < cut; i++) if (HO(A)[i < 15 ? i : 15] != fname[i]) { same = false; break; }
	if (cut > 15 || HO(A)[cut] != '\0') same = false;
	unsigned pos = 0;
	for (struct policy_node *c = ast; c; c = dfs_next(c), pos++) {
		found_issue = 0;
		call_checks(ck, &d, c);
		bool hdr = c->flavor == NODE_HEADER;
		VF_ASSERT((found_issue != 0) == (hdr && !same), "the module header, and nothing else, is reported exactly if its name differs from the file name without extension");
	}
	if (same && cut < len) VF_WITNESS("match"); else if (!same && cut < len) VF_WITNESS("mismatch"); else if (same) VF_WITNESS("no extension");
}
