/* Which checks run: level, configuration and command line. */
#include "world.h"
/*@lines none
@*/
static const char *const ids[] = {
	"C-001", "C-004", "C-005", "C-006", "C-007",
	"S-001", "S-002", "S-003", "S-004", "S-005", "S-006", "S-007", "S-008", "S-009", "S-010",
	"W-001", "W-002", "W-003", "W-004", "W-005", "W-006", "W-007", "W-008", "W-009", "W-010", "W-011",
	"E-002", "E-003", "E-004", "E-005", "E-006", "E-007", "E-008", "E-009", "E-010" };
#define NIDS (sizeof ids / sizeof ids[0])
static bool on[NIDS];
static bool other;
enum selint_error vf_add_check(enum node_flavor f, struct checks *ck, const char *id, void *fn)
{
	bool hit = false;
	(void)ck; (void)f;
	for (unsigned i = 0; i < NIDS; i++)
		if (vf_eq(ids[i], id)) { on[i] = true; hit = true; }
	if (!hit || !fn) other = true;
	return SELINT_SUCCESS;
}
/* four lists of up to two IDs each */
static char s0[6], s1[6], s2[6], s3[6], s4[6], s5[6], s6[6], s7[6];
static char *const str[8] = { s0, s1, s2, s3, s4, s5, s6, s7 };
static struct string_list nodes[8];
static unsigned len[4];
static struct string_list *list(unsigned k)
{
	for (unsigned i = 0; i < 2; i++) {
		char *s = str[2 * k + i];
		s[0] = (char)vf_nd_raw(); s[1] = '-'; s[2] = '0'; s[3] = (char)('0' + vf_u(2)); s[4] = (char)('0' + vf_u(10)); s[5] = '\0';
		VF_ASSUME(s[0] == 'C' || s[0] == 'S' || s[0] == 'W' || s[0] == 'E');
		nodes[2 * k + i].string = s;
	}
	len[k] = vf_u(3);
	nodes[2 * k].next = len[k] > 1 ? &nodes[2 * k + 1] : NULL;
	nodes[2 * k + 1].next = NULL;
	return len[k] ? &nodes[2 * k] : NULL;
}
static bool in(unsigned k, const char *id)
{
	return (len[k] > 0 && vf_eq(str[2 * k], id)) || (len[k] > 1 && vf_eq(str[2 * k + 1], id));
}
static unsigned sev(char c) { return c == 'C' ? 0 : c == 'S' ? 1 : c == 'W' ? 2 : c == 'E' ? 3 : c == 'F' ? 4 : 5; }
void vf_main(void)
{
	char level = (char)vf_nd_raw();
	int only = vf_b();
	insert_into_decl_map("file", "class", DECL_CLASS);
	insert_into_decl_map("read", "class", DECL_PERM);
	insert_into_permmacros_map("q", sl_from_str("read"));
	struct string_list *ce = list(0), *cd = list(1), *le = list(2), *ld = list(3);
	struct checks *ck = register_checks(level, ce, cd, le, ld, only);
	VF_ASSERT((ck != NULL) == (sev(level) < 5), "exactly the five severity letters are levels");
	VF_ASSERT(!other, "only documented checks exist");
	if (!ck) { VF_WITNESS("no such level"); return; }
	bool all = true;
	for (unsigned i = 0; i < NIDS; i++) {
		bool e = !only;
		if (!only && in(1, ids[i])) e = false;
		if (!only && in(0, ids[i])) e = true;
		if (!only && in(3, ids[i])) e = false;
		if (in(2, ids[i])) e = true;
		e = e && sev(ids[i][0]) >= sev(level);
		all = all && e == on[i];
	}
	VF_ASSERT(all, "a check runs exactly if its severity reaches the level and the last of: default, config disable, config enable, command-line disable, command-line enable says so");
	if (only && on[3]) VF_WITNESS("only enabled"); else if (!only && in(3, "W-001") && in(0, "W-001")) VF_WITNESS("command line overrides"); else if (!only && in(1, "E-009") && !on[33]) VF_WITNESS("disabled in config");
}
