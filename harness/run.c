/* One run over given files: what is parsed before what is checked, and which files are checked. */
#include "world.h"
#include "parse_fc.h"
/*@policy p/m1.te
policy_module(m1, 1.0)
type HOLE_A;
HOLE_X(a_t)
allow a_t b_t:file read;
@*/
/*@policy p/m3.te
policy_module(m3, 1.0)
type m3_t;
@*/
/*@policy p/m1.if
interface(`i1',`
	i2($1)
')
@*/
/*@policy c/m2.te
policy_module(m2, 1.0)
type HOLE_B;
@*/
/*@policy c/m2.if
interface(`i2',`
	typeattribute $1 k;
')
interface(`i3',`
	i1($1)
')
@*/
/*@policy c/mls.if
interface(`mls_i2',`
	typeattribute $1 mlsx;
')
@*/
/*@lines p/m1.fc
/x -- u:r:t:s0

/y -- u:r:t:s0
@*/
/*@policy p/bad.te
interface(`i5',`
	foo($1)
')
@*/
/*@policy p/bad.if
policy_module(bad, 1.0)
type bad_t;
@*/
static char log_[80];
static unsigned nlog, nth[3], own[3];
static unsigned lines[80];
static bool world = true, data_ok = true;
static struct check_result *look(const struct check_data *d, const struct policy_node *n)
{
	/* every declaration and interface of every file is known, transform interfaces of all files are marked */
	world = world && vf_eq(look_up_in_ifs_map("i1") ? look_up_in_ifs_map("i1") : "", "m1") && vf_eq(look_up_in_ifs_map("i3") ? look_up_in_ifs_map("i3") : "", "m2");
	const char *a = look_up_in_decl_map(vf_hole_A, DECL_TYPE), *b = look_up_in_decl_map(vf_hole_B, DECL_TYPE);
	world = world && a && b && vf_eq(a, "m1") && vf_eq(b, "m2");
	world = world && is_transform_if("mls_i2") && !is_transform_if("i1");
	char c = d->flavor == FILE_TE_FILE ? 't' : d->flavor == FILE_IF_FILE ? 'i' : 'f';
	data_ok = data_ok && vf_eq(d->mod_name, d->flavor == FILE_TE_FILE && nlog > 5 ? "m3" : "m1");
	if (n->flavor == NODE_CLEANUP) c = 'X';
	if (nlog < 79) { lines[nlog] = n->lineno; log_[nlog++] = c; }
	if (n->flavor == NODE_IF_CALL) return make_check_result('W', 1, "%s", "m");
	return NULL;
}
static void add(struct policy_file_list *l, const char *f) { file_list_push_back(l, make_policy_file(f, NULL)); }
#define FAILS(k, good, bad) (CASE == (k) ? (bad) : (good))
void vf_main(void)
{
	ID3(A); ID3(B); ID3(X);
	VF_ASSUME(!vf_eq(vf_hole_A, vf_hole_B) && !vf_eq(vf_hole_A, "m3_t") && !vf_eq(vf_hole_B, "m3_t"));
	VF_ASSUME(vf_hole_A[0] != '$' && vf_hole_B[0] != '$');
	struct policy_file_list te = { 0, 0 }, ifs = { 0, 0 }, fc = { 0, 0 }, cte = { 0, 0 }, cif = { 0, 0 };
	add(&te, "p/m1.te"); add(&te, FAILS(1, "p/m3.te", "p/gone.te"));
	add(&ifs, FAILS(2, "p/m1.if", "p/gone.if"));
	add(&fc, FAILS(3, "p/m1.fc", "p/gone.fc"));
	add(&cte, FAILS(4, "c/m2.te", "c/gone.te"));
	add(&cif, "c/m2.if"); add(&cif, FAILS(5, "c/mls.if", "c/gone.if"));
#if CASE == 6
	add(&te, "p/bad.te");
#elif CASE == 7
	add(&cif, "p/bad.if");
#endif
	struct checks *ck = calloc(1, sizeof *ck);
	for (unsigned f = 0; f <= NODE_ERROR; f++) add_check((enum node_flavor)f, ck, "W-001", look);
	found_issue = 0;
	vf_out_reset();
	enum selint_error r = run_analysis(ck, &te, &ifs, &fc, &cte, &cif, NULL, NULL);
	vf_out_sync();
#if CASE == 0
	VF_ASSERT(r == SELINT_SUCCESS, "the run succeeds");
	VF_ASSERT(world, "every file is parsed, and marked, before the first statement is checked");
	static const struct { char c; unsigned line; } want[] = {
		{ 't', 1 }, { 't', 1 }, { 't', 2 }, { 't', 3 }, { 't', 4 }, { 'X', 0 }, { 't', 1 }, { 't', 1 }, { 't', 2 }, { 'X', 0 },
		{ 'i', 1 }, { 'i', 1 }, { 'i', 1 }, { 'i', 2 }, { 'X', 0 }, { 'f', 0 }, { 'f', 1 }, { 'f', 3 }, { 'X', 0 } };
	bool same = nlog == sizeof want / sizeof want[0];
	for (unsigned i = 0; i < sizeof want / sizeof want[0]; i++) same = same && log_[i] == want[i].c && (want[i].c == 'X' || lines[i] == want[i].line || want[i].line < 2);
	VF_ASSERT(same, "exactly the files under analysis are checked, each statement once: policy, then interface, then context files");
	VF_ASSERT(data_ok, "checks are told the module of each file");
	VF_ASSERT(found_issue, "findings are noted");
	vf_ex_reset();
	vf_ex_str("m1.te:"); vf_ex_num(3, 17, ' '); vf_ex_str(": (W): m (W-"); vf_ex_num(1, 3, '0'); vf_ex_str(")\n");
	vf_ex_str("m1.if:"); vf_ex_num(2, 17, ' '); vf_ex_str(": (W): m (W-"); vf_ex_num(1, 3, '0'); vf_ex_str(")\n");
	VF_ASSERT(vf_ex_match(), "only files under analysis produce findings");
	VF_WITNESS("complete run");
#else
	VF_ASSERT(r != SELINT_SUCCESS, "a file that cannot be opened or parsed makes the run fail");
	VF_ASSERT(nlog == 0 && !found_issue, "no finding is reported when a file cannot be parsed");
	VF_WITNESS("failed run");
#endif
}
