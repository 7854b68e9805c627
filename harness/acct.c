/* What is printed and counted: finding lines, module names, the summary. */
#include "world.h"
/*@lines none
@*/
static const char sv[] = "CSWE";
#if CASE == 0
/* ---- the summary ---- */
#ifdef THOROUGH
#define NCK 5
#define NRUN 3
#else
#define NCK 4
#define NRUN 2
#endif
static char id0[6], id1[6], id2[6], id3[6], id4[6];
static char *const id[5] = { id0, id1, id2, id3, id4 };
static unsigned who;
static bool fire[NRUN][NCK];
static unsigned run;
static struct check_result *dummy(unsigned k, const struct check_data *d, const struct policy_node *n)
{
	(void)d; (void)n;
	return fire[run][k] ? make_check_result(id[k][0], 1, "%s", "x") : NULL;
}
static struct check_result *c0(const struct check_data *d, const struct policy_node *n) { return dummy(0, d, n); }
static struct check_result *c1(const struct check_data *d, const struct policy_node *n) { return dummy(1, d, n); }
static struct check_result *c2(const struct check_data *d, const struct policy_node *n) { return dummy(2, d, n); }
static struct check_result *c3(const struct check_data *d, const struct policy_node *n) { return dummy(3, d, n); }
#if NCK > 4
static struct check_result *c4(const struct check_data *d, const struct policy_node *n) { return dummy(4, d, n); }
#endif
static unsigned key(unsigned k)
{
	char s = id[k][0];
	return (s == 'C' ? 0 : s == 'S' ? 100 : s == 'W' ? 200 : 300) + (unsigned)(id[k][3] - '0') * 10 + (unsigned)(id[k][4] - '0');
}
void vf_main(void)
{
	struct checks *ck = calloc(1, sizeof *ck);
	/* the same ID can stand at several kinds of statements, and several IDs at one */
	static const enum node_flavor fl[5] = { NODE_AV_RULE, NODE_AV_RULE, NODE_DECL, NODE_TE_FILE, NODE_ERROR };
	for (unsigned k = 0; k < NCK; k++) {
		id[k][0] = sv[vf_u(4)]; id[k][1] = '-'; id[k][2] = '0'; id[k][3] = (char)('0' + vf_u(2)); id[k][4] = (char)('0' + vf_u(10)); id[k][5] = '\0';
	}
	add_check(fl[0], ck, id[0], c0);
	add_check(fl[1], ck, id[1], c1);
	add_check(fl[2], ck, id[2], c2);
	add_check(fl[3], ck, id[3], c3);
#if NCK > 4
	add_check(fl[4], ck, id[4], c4);
#endif
	unsigned cnt[NCK] = { 0 }, total = 0;
	suppress_output = vf_b();
	found_issue = 0;
	vf_out_reset();
	for (run = 0; run < NRUN; run++) {
		for (unsigned k = 0; k < NCK; k++) { fire[run][k] = vf_b(); if (fire[run][k]) { cnt[k]++; total++; } }
		struct check_data d = vf_cd("m", "m.te", FILE_TE_FILE, NULL);
		for (unsigned k = 0; k < NCK; k++) {
			if (k == 1) continue;
			struct policy_node n;
			memset(&n, 0, sizeof n);
			n.flavor = fl[k];
			n.lineno = 3;
			call_checks(ck, &d, &n);
		}
	}
	vf_out_sync();
	if (suppress_output) VF_ASSERT(vf_out_len == 0, "in summary-only mode no finding line is printed");
	VF_ASSERT((found_issue != 0) == (total != 0), "the run is marked as having findings exactly if there is one");
	vf_out_reset();
	display_run_summary(ck);
	vf_out_sync();
	vf_ex_reset();
	vf_ex_str("Found the following issue counts:\n");
	bool used[NCK] = { false };
	for (unsigned r = 0; r < NCK; r++) {
		unsigned best = 9999;
		for (unsigned k = 0; k < NCK; k++)
			if (!used[k] && cnt[k] && key(k) < best) best = key(k);
		if (best == 9999) continue;
		unsigned sum = 0, rep = 0;
		for (unsigned k = 0; k < NCK; k++)
			if (key(k) == best) { sum += cnt[k]; used[k] = true; rep = k; }
		for (unsigned i = 0; i < 5; i++) vf_ex_chr(id[rep][i]);
		vf_ex_str(": ");
		vf_ex_num(sum, 0, ' ');
		vf_ex_chr('\n');
	}
	if (!total) vf_ex_str("(none)\n");
	VF_ASSERT(vf_ex_match(), "the summary lists every ID with findings once, ordered by severity and number, with the sum of its findings, or (none)");
	if (!total) VF_WITNESS("no finding"); else if (vf_eq(id0, id2) && cnt[0] && cnt[2] && cnt[3]) VF_WITNESS("shared ID");
}
#elif CASE == 1
/* ---- one finding line ---- */
static char file[29], msg[5];
static struct check_result *r;
void vf_main(void)
{
	static const char all[] = "CSWEF";
	unsigned len = vf_u(6);              /* around the width of the file name column */
	len = len == 0 ? 1 : len == 1 ? 2 : len == 2 ? 20 : len == 3 ? 21 : len == 4 ? 22 : 28;
	for (unsigned i = 0; i < 28; i++) {
		char c = (char)vf_nd_raw();
		VF_ASSUME((c == 0) == (i >= len));
		file[i] = c;
	}
	vf_str(msg, 4);
	char s = all[vf_u(5)];
	unsigned num = vf_u(100), line = vf_u(256) * 65536u + vf_u(256) * 256u + vf_u(256);
	bool color = vf_b();
	if (color) color_enable();
	struct check_data d = vf_cd("m", file, FILE_TE_FILE, NULL);
	r = make_check_result(s, num, "%s", msg);
	r->lineno = line;
	vf_out_reset();
	display_check_result(r, &d);
	vf_out_sync();
	vf_ex_reset();
	vf_ex_str(file);
	vf_ex_chr(':');
	vf_ex_num(line, len < 22 ? 22 - len : 0, ' ');
	vf_ex_str(": ");
	if (color) {
		if (s == 'E') vf_ex_str("\033[31;1m");
		else if (s == 'W') vf_ex_str("\033[33;1m");
		else if (s == 'S') vf_ex_str("\033[35;1m");
		else if (s == 'C') vf_ex_str("\033[34;1m");
		else vf_ex_str("\033[1m");
	}
	vf_ex_chr('('); vf_ex_chr(s); vf_ex_chr(')');
	if (color) vf_ex_str("\033[0m");
	vf_ex_str(": ");
	vf_ex_str(msg);
	vf_ex_str(" (");
	vf_ex_chr(s);
	vf_ex_chr('-');
	vf_ex_num(num, 3, '0');
	vf_ex_str(")\n");
	VF_ASSERT(vf_ex_match(), "a finding is printed as file, line, severity, message and check ID, whatever the texts are");
	if (color && line > 70000 && msg[0] == '%') VF_WITNESS("coloured"); else if (!color && len == 28 && msg[0] == '\n') VF_WITNESS("plain");
}
#elif CASE == 2
/* ---- what checks are told about the file ---- */
#ifdef THOROUGH
#define NP 12
#else
#define NP 9
#endif
static char path[NP + 1];
static unsigned calls, b, e, n;
static bool good = true;
static char want;
static struct check_result *look(const struct check_data *d, const struct policy_node *node)
{
	calls++;
	if (node->flavor == NODE_CLEANUP) return NULL;
	bool f = true, m = true;
	for (unsigned i = 0; i + b <= n; i++) f = f & (d->filename[i] == path[b + i]);
	for (unsigned i = 0; i + b < e; i++) m = m & (d->mod_name[i] == path[b + i]);
	m = m & (d->mod_name[e - b] == '\0');
	good = good & f & m & (d->flavor == (enum file_flavor)want);
	return NULL;
}
void vf_main(void)
{
	want = (char)vf_u(3);
	vf_str(path, NP);
	n = 0;
	while (path[n]) n++;
	b = 0; e = 0;
	for (unsigned i = 0; i < n; i++) if (path[i] == '/') b = i + 1;
	for (unsigned i = 0; i < n; i++) if (path[i] == '.') e = i + 1;
	VF_ASSUME(e > b);
	e--;
	struct checks *ck = calloc(1, sizeof *ck);
	add_check(NODE_TE_FILE, ck, "W-001", look);
	add_check(NODE_DECL, ck, "W-002", look);
	add_check(NODE_CLEANUP, ck, "W-001", look);
	struct policy_node root, child;
	memset(&root, 0, sizeof root);
	memset(&child, 0, sizeof child);
	root.flavor = NODE_TE_FILE;
	root.next = &child;
	child.flavor = NODE_DECL;
	child.prev = &root;
	struct policy_file pf = { path, &root };
	struct policy_file_node fn = { &pf, NULL };
	struct policy_file_list fl = { &fn, &fn };
	enum selint_error r = run_all_checks(ck, (enum file_flavor)want, &fl, NULL);
	VF_ASSERT(r == SELINT_SUCCESS, "the checks run");
	VF_ASSERT(calls == 3, "every statement is visited once, and the checks are told when a file ends");
	VF_ASSERT(good, "a check sees the file's base name and, as module name, that name up to its last dot");
	if (b > 2 && e > b + 2 && path[b + 1] == '.') VF_WITNESS("two dots"); else if (b == 0 && e == 0) VF_WITNESS("empty module name");
}
#endif
