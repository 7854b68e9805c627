/* Disable comments: what is suppressed, and nothing else; reporting of the rest. */
#include "world.h"
/*@policy m1.te if CASE==0
policy_module(m1, 1.0)
allow a_t b_t:file read;
allow a_t b_t:file read; #selint-disable: W-901
allow a_t b_t:file read;
type x_t; type y_t; #selint-disable: W-902
portcon tcp 80 gen_context(system_u:object_r:http_port_t,s0) #selint-disable: W-903
foo(x) #selint-disable: W-904
type_transition a_t b_t:process
	c_t; #selint-disable: W-905
optional_policy(`
	allow a_t b_t:file read;
	allow a_t b_t:file read; #selint-disable: W-906
	bar(y)
')
role a_r types b_t; #selint-disable: W-907
@*/
/*@policy m1.te if CASE==1
policy_module(m1, 1.0)
optional_policy(` #selint-disable: W-901
	foo(x)
') #selint-disable: W-902
optional_policy(`
	foo(x)
') #selint-disable: W-903
optional_policy(`
	foo(x)
',`
	foo(y) #selint-disable: W-904
')
if ( #selint-disable: W-905
z) {
	foo(x)
}
ifdef(`x',`
	foo(x) #selint-disable: W-906
',`
	foo(y)
')
tunable_policy(`x',`
	foo(x)
') #selint-disable: W-907
@*/
/*@policy m1.if if CASE==2
interface(`i1',` #selint-disable: W-901
	gen_require(` #selint-disable: W-902
		type a_t, b_t; #selint-disable: W-903
		class file read;
	')
	foo(x) #selint-disable: W-904
')
interface(`i2',`
	require { #selint-disable: W-905
		type a_t, b_t, c_t;
		class file read; #selint-disable: W-906
	}
	foo(x)
')
template(`i3',` #selint-disable: W-907
')
interface(`i4',`
	gen_require( #selint-disable: W-908
		type a_t;
	)
	foo(x)
')
@*/
#if CASE == 0
#define NC 7
static char *const cmd[] = { vf_cmd_1, vf_cmd_2, vf_cmd_3, vf_cmd_4, vf_cmd_5, vf_cmd_6, vf_cmd_7 };
/* per line: the commands that apply to the statements starting there */
static const unsigned char by_line[] = { 0, 0, 0, 1, 0, 2, 4, 8, 16, 0, 0, 0, 32, 0, 0, 64 };
#elif CASE == 1
#define NC 7
static char *const cmd[] = { vf_cmd_1, vf_cmd_2, vf_cmd_3, vf_cmd_4, vf_cmd_5, vf_cmd_6, vf_cmd_7 };
static const unsigned char by_line[] = { 0, 0, 3, 0, 0, 4, 0, 0, 0, 0, 0, 8, 0, 16, 0, 0, 0, 0, 32, 0, 0, 0, 64, 0, 0 };
#else
#define NC 8
static char *const cmd[] = { vf_cmd_1, vf_cmd_2, vf_cmd_3, vf_cmd_4, vf_cmd_5, vf_cmd_6, vf_cmd_7, vf_cmd_8 };
static const unsigned char by_line[] = { 0, 1, 2, 4, 0, 0, 8, 0, 0, 16, 0, 32, 0, 0, 0, 64, 0, 0, 128, 0, 0, 0, 0 };
#endif
static char id[6], msg[2] = "q";
static void new_id(char *p)
{
	static const char sv[] = "CSWEF";
	p[0] = sv[vf_u(5)]; p[1] = '-'; p[2] = '0'; p[3] = (char)('0' + vf_u(2)); p[4] = (char)('0' + vf_u(10));
}
static bool named(unsigned k)          /* is the ID one of those command k names? */
{
	const char *c = cmd[k];
	for (unsigned i = 16; i < 30; i++) {
		if (c[i] == '\0') break;
		if (c[i] == id[0] && c[i + 1] == '-' && c[i + 2] == id[2] && c[i + 3] == id[3] && c[i + 4] == id[4]) return true;
	}
	return false;
}
static unsigned num;
static struct check_result *always(const struct check_data *d, const struct policy_node *n)
{
	(void)d; (void)n;
	return make_check_result(id[0], num, "%s", msg);
}
static unsigned calls;
static struct check_result *never(const struct check_data *d, const struct policy_node *n)
{
	(void)d; (void)n;
	calls++;
	return NULL;
}
void vf_main(void)
{
	const bool te = CASE < 2;
	const char *file = te ? "m1.te" : "m1.if";
	new_id(id);
	num = (unsigned)(id[3] - '0') * 10 + (unsigned)(id[4] - '0');
	for (unsigned k = 0; k < NC; k++) {
		char *c = cmd[k];
		const char *pre = "#selint-disable:";
		unsigned n = 0;
		for (; pre[n]; n++) c[n] = pre[n];
		/* layouts: one ID or two, with and without spaces; alternating so that all occur */
		if (k & 1) c[n++] = ' ';
		new_id(c + n); n += 5;
		if (k & 2) {
			c[n++] = ',';
			if (k & 4) c[n++] = ' ';
			new_id(c + n); n += 5;
		}
		c[n] = '\0';
	}
	struct policy_node *ast = vf_parse(file, te ? NODE_TE_FILE : NODE_IF_FILE);
	VF_ASSERT(ast != NULL, "the file is accepted");
	VF_ASSUME(ast != NULL);
	struct checks *ck = calloc(1, sizeof *ck);
	for (unsigned f = 0; f <= NODE_ERROR; f++) {
		if (f == NODE_START_BLOCK || f == NODE_M4_ARG) continue;
		add_check((enum node_flavor)f, ck, id, always);
		add_check((enum node_flavor)f, ck, "E-009", never);
	}
	struct check_data d = vf_cd("m1", file, te ? FILE_TE_FILE : FILE_IF_FILE, NULL);
	bool ok = true, exact = true, counted = true;
	unsigned seen = 0, hits = 0;
	suppress_output = 0;
	for (struct policy_node *c = ast; c; c = dfs_next(c)) {
		if (c->flavor == NODE_START_BLOCK || c->flavor == NODE_M4_ARG) continue;
		bool lok, sup = false;
		for (unsigned k = 0; k < NC; k++)
			if (c->lineno < sizeof by_line && (by_line[c->lineno] & (1u << k)) && c->flavor != NODE_TE_FILE && c->flavor != NODE_IF_FILE) sup = sup || named(k);
		unsigned before = ck->check_nodes[c->flavor]->issues_found;
		bool r = vf_lint(ck, &d, c, id, &lok);
		ok = ok & lok;
		exact = exact & (r == !sup);
		counted = counted & (ck->check_nodes[c->flavor]->issues_found == before + (r ? 1 : 0));
		seen++;
		if (r) hits++;
	}
	VF_ASSERT(exact, "a finding is suppressed exactly if its ID stands in a disable comment on the statement's line (for blocks: first or last line)");
	VF_ASSERT(ok, "every finding that is not suppressed is one well-formed line and marks the run as having findings");
	VF_ASSERT(counted, "a finding counts exactly if it is not suppressed");
	VF_ASSERT(seen > 10, "the statements are there");
	if (hits == seen) VF_WITNESS("nothing suppressed"); else if (named(0) && named(1) && named(2) && named(3)) VF_WITNESS("much suppressed");
}
