/* C-001: statements out of the documented order. */
#include "world.h"
#include "ordering.h"
#if CASE == 1
/*@policy m1.te if CASE==1
policy_module(m1, 1.0)
HOLE_a(a_t)
HOLE_b(a_t)
@*/
#elif CASE == 2
/*@policy m1.te if CASE==2
policy_module(m1, 1.0)
bool b_b;
attribute a_a;
type a_t;
role a_r;
allow a_t self:process fork;
allow a_t HOLE_x:file read;
HOLE_a(a_t)
ifdef(`x',`
	oif(a_t)
')
if (b_b) {
	oif(a_t)
}
tunable_policy(`b_b',`
	oif(a_t)
')
optional_policy(`
	HOLE_b(a_t)
')
optional_policy(`
	HOLE_c(a_t)
')
@*/
#elif CASE == 3
/*@policy m1.te if CASE==3
policy_module(m1, 1.0)
type a_t;
allow a_t self:process fork;
allow HOLE_e self:process fork;
@*/
#endif
/* one object for the table of statements, with the elements in place */
#define NMAX 24
static struct { const char *mod_name; struct section_data *sections; size_t order_node_len; struct order_node nodes[NMAX]; } vf_ord;
static struct order_node vf_tab[NMAX + 1];
static struct section_data vf_sec[NMAX];
static unsigned vf_nsec;
void *vf_ord_calloc(size_t n, size_t sz)
{
#ifdef VF_SYMBOLIC
	if (sz == sizeof(struct section_data)) {
		VF_ASSUME(vf_nsec < NMAX);
		return &vf_sec[vf_nsec++];
	}
#if CASE == 0
	return vf_tab;
#else
	return &vf_ord;
#endif
#else
	return calloc(n, sz);
#endif
}
static const char *const ifs[] = { "pif", "mif", "rif", "kif", "lif", "bif", "sif", "oif", "zif" };
static const char *const mods[] = { NULL, "m1", "m1_x", "kernel", "files", "libs", "sys", "aaa", "zzz" };
enum { P_, M_, R_, K_, L_, B_, S_, O_, Z_, NIF };
#if CASE
static void world(void)
{
	insert_into_decl_map("a_t", "m1", DECL_TYPE);
	insert_into_decl_map("o_t", "other", DECL_TYPE);
	for (unsigned i = 1; i < NIF; i++) insert_into_ifs_map(ifs[i], mods[i]);
	insert_into_mod_layers_map("m1", "services");
	insert_into_mod_layers_map("kernel", "kernel");
	insert_into_mod_layers_map("files", "kernel");
	insert_into_mod_layers_map("libs", "system");
	insert_into_mod_layers_map("sys", "system");
	insert_into_mod_layers_map("aaa", "services");
	insert_into_mod_layers_map("zzz", "apps");
}
/* rank of an interface call in the documented order (10: own, 20: related, 30: kernel module, 40: kernel layer, 50: system layer, 60: rest),
   and within it the alphabetical position of the module */
static int rank(unsigned k, unsigned v)
{
	static const int ref[] = { 10, 10, 60, 30, 40, 50, 50, 60, 60 };
	static const int light[] = { 10, 10, 20, 30, 60, 60, 60, 60, 60 };
	return v == ORDER_REF ? ref[k] : v == ORDER_LIGHT ? light[k] : ref[k] == 10 ? 10 : 60;
}
/* may a call of a stand before a call of b? */
static bool before(unsigned a, unsigned b, unsigned v)
{
	/* aaa < files < kernel < libs < m1 < m1_x < sys < zzz */
	static const int alpha[] = { 0, 5, 6, 3, 2, 4, 7, 1, 8 };
	if (rank(a, v) != rank(b, v)) return rank(a, v) < rank(b, v);
	if (v == ORDER_LAX || a == P_ || b == P_) return true;
	return alpha[a] <= alpha[b];
}

static int cmp(unsigned v, const struct ordering_metadata *o, const struct policy_node *x, const struct policy_node *y)
{
	return v == ORDER_REF ? (int)compare_nodes_refpolicy(o, x, y) : v == ORDER_LIGHT ? (int)compare_nodes_refpolicy_light(o, x, y) : (int)compare_nodes_refpolicy_lax(o, x, y);
}
#else
#ifndef NN
#define NN 5
#endif
static enum order_difference_reason by_rank(const struct ordering_metadata *o, const struct policy_node *x, const struct policy_node *y)
{
	(void)o;
	return x->lineno == y->lineno ? ORDER_EQUAL : x->lineno < y->lineno ? ORDER_SECTION : (enum order_difference_reason)-ORDER_SECTION;
}
#endif
void vf_main(void)
{
#if CASE == 0
	/* statements whose places in the order are any numbers; one of them may be exempt */
	static struct policy_node node[NN + 1];
	static char exc[8] = "C-00";
	unsigned rank[NN];
	bool in[NN];
	const bool exempt = EXEMPT;
	exc[4] = EXEMPT ? '1' : '2';
	node[0].flavor = NODE_TE_FILE;
	for (unsigned i = 0; i < NN; i++) {
		node[i].next = &node[i + 1];
		node[i + 1].prev = &node[i];
		node[i + 1].flavor = NODE_SEMICOLON;
		node[i + 1].lineno = rank[i] = vf_u(NN);
	}
	node[2].exceptions = exc;
	struct check_data d = vf_cd("m1", "m1.te", FILE_TE_FILE, NULL);
	struct ordering_metadata *o = prepare_ordering_metadata(&d, node);
	VF_ASSERT(o != NULL, "a table is made");
	VF_ASSERT(o->order_node_len == NN - EXEMPT, "every statement has its place");
	VF_ASSUME(o != NULL && o->order_node_len == NN - EXEMPT);
	calculate_longest_increasing_subsequence(node, o, by_rank);
	for (unsigned i = 0; i < NN; i++) in[i] = false;
	for (unsigned i = 0; i < NN - EXEMPT; i++)
		for (unsigned j = 0; j < NN; j++)
			if (o->nodes[i].node == &node[j + 1]) in[j] = o->nodes[i].in_order;
	bool sorted = true;
	unsigned n = 0, best = 0;
	for (unsigned i = 0; i < NN; i++) {
		if (exempt && i == 1) { VF_ASSERT(!in[i], "an exempt statement takes no part"); continue; }
		n += in[i];
		for (unsigned j = 0; j < i; j++) sorted = sorted && !(in[i] && in[j] && rank[j] > rank[i]);
	}
	/* longest ordered selection, over all of them */
	for (unsigned m = 0; m < 1u << NN; m++) {
		bool ok = !(exempt && (m & 2));
		unsigned k = 0;
		for (unsigned i = 0; i < NN; i++)
			if (m >> i & 1) {
				k++;
				for (unsigned j = 0; j < i; j++)
					if (m >> j & 1) ok = ok && rank[j] <= rank[i];
			}
		if (ok && k > best) best = k;
	}
	VF_ASSERT(sorted, "the statements that are not reported are in order");
	VF_ASSERT(n == best, "no smaller set of statements restores the order");
#if EXEMPT
	if (best == NN - 1) VF_WITNESS("exempt");
#endif
	if (best < NN - 2) VF_WITNESS("two out of order"); 
#if !EXEMPT
	if (best == NN) VF_WITNESS("all in order");
#endif
#else
#ifdef STYLE
	unsigned v = STYLE;
#else
	unsigned v = vf_u(3);
#endif
	v = v == 0 ? ORDER_REF : v == 1 ? ORDER_LIGHT : ORDER_LAX;
	world();
#if CASE == 1
	unsigned a = vf_pick(HO(a), ifs, NIF, 4), b = vf_pick(HO(b), ifs, NIF, 4);
#elif CASE == 2
	static const char *const tgt[] = { "a_t", "o_t", "u_t" };
	unsigned a = vf_pick(HO(a), ifs, NIF, 4), b = vf_pick(HO(b), ifs, NIF, 4), c = vf_pick(HO(c), ifs, NIF, 4), x = vf_pick(HO(x), tgt, 3, 4);
#else
	static const char *const dom[] = { "b_t", "a_r", "a", "A_t", "aa_t" };
	const unsigned e = WHICH;
	for (unsigned i = 0; dom[e][i]; i++) HO(e)[i] = dom[e][i];
#endif
	struct policy_node *ast = vf_parse("m1.te", NODE_TE_FILE);
	VF_ASSERT(ast != NULL, "the file is accepted");
	VF_ASSUME(ast != NULL);
	struct check_data d = vf_cd("m1", "m1.te", FILE_TE_FILE, NULL);
	struct ordering_metadata *o = prepare_ordering_metadata(&d, ast);
	VF_ASSUME(o != NULL);
#define OK(x, y) (cmp(v, o, x, y) >= 0)
#if CASE == 1
	VF_ASSERT(OK(vf_nth(ast, NODE_IF_CALL, 0), vf_nth(ast, NODE_IF_CALL, 1)) == before(a, b, v), "two calls are in order exactly if the style guide says so");
	if (before(a, b, v)) VF_WITNESS("ordered"); else VF_WITNESS("not ordered");
#elif CASE == 2
	enum { NK = 12 };
	const struct policy_node *k[NK] = {
		vf_nth(ast, NODE_DECL, 0), vf_nth(ast, NODE_DECL, 1), vf_nth(ast, NODE_DECL, 2), vf_nth(ast, NODE_DECL, 3),
		vf_nth(ast, NODE_AV_RULE, 0), vf_nth(ast, NODE_AV_RULE, 1), vf_nth(ast, NODE_IF_CALL, 0),
		vf_nth(ast, NODE_IF_CALL, 1), vf_nth(ast, NODE_IF_CALL, 2), vf_nth(ast, NODE_IF_CALL, 3), vf_nth(ast, NODE_IF_CALL, 4), vf_nth(ast, NODE_IF_CALL, 5) };
	int r[NK] = { 1, 2, 3, 3, 5, 10, 0, 70, 80, 90, 100, 100 };
	r[6] = rank(a, v);
	if (v == ORDER_LAX) r[7] = r[8] = r[9] = r[10] = r[11] = 60;
	bool all = true;
	for (unsigned i = 0; i < NK; i++)
		for (unsigned j = 0; j < NK; j++) {
			if (i == j) continue;
			bool want = r[i] <= r[j];
			if ((i == 5 && j >= 4) || (j == 5 && i >= 4)) want = want || x == 1;
			if (i >= 10 && j >= 10 && v != ORDER_LAX) {
				unsigned p = i == 10 ? b : c, q = j == 10 ? b : c;
				static const int alpha[] = { 0, 5, 6, 3, 2, 4, 7, 1, 8 };
				want = p == P_ || q == P_ || alpha[p] <= alpha[q];
			}
			bool got = OK(k[i], k[j]);
			all = all && got == want;
		}
	VF_ASSERT(all, "declarations, rules, calls and blocks are in order exactly if the style guide says so");
	VF_WITNESS("pairs");
#else
	const struct policy_node *s = vf_nth(ast, NODE_AV_RULE, 0), *t = vf_nth(ast, NODE_AV_RULE, 1);
	VF_ASSERT(OK(s, t), "a section may follow another");
	VF_ASSERT(OK(t, s) == (e == 1 || e == 2 || e == 3), "a section is not split by another one");
	VF_WITNESS("sections");
#endif
#endif
}
