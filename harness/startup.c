/* What is learnt about the system: classes, permissions, modules, macros. */
#if CASE == 1
#define VF_LINELEN(s) ((s) == vf_line_any ? LEN : 0)
#elif CASE == 2
#define VF_LINEBUF 24
#define VF_LINELEN(s) ((s) == vf_line_a ? 10 : (s) == vf_line_b ? 9 : 0)
#endif
#include "world.h"
#include "startup.h"
#include <fts.h>
#include <unistd.h>
/*@lines any if CASE == 1
@any
@*/
/*@lines mods if CASE == 2
# comment = off

@a
   	
  # another = base
  zz=off
@b
@*/
/*@lines bad if CASE == 3
@a
@b
@c
@*/
/*@policy av if CASE == 4
class HOLE_a
class HOLE_b
common HOLE_c { HOLE_p }
class HOLE_d { HOLE_q HOLE_r }
# comment
class HOLE_e inherits HOLE_f
class HOLE_g inherits HOLE_h { HOLE_s }
@*/
/*@policy av if CASE == 5
common HOLE_c { HOLE_p }
class HOLE_d { HOLE_q HOLE_r }
# comment
class HOLE_e inherits HOLE_f
class HOLE_g inherits HOLE_h { HOLE_s }
@*/
/*@policy spt if CASE == 6
define(`HOLE_a', `{ HOLE_p HOLE_q }')
# comment
define(`read_x_perms', `{ HOLE_r }')
define(`x_perm', `{ a b }')
define(`read_x_perms', `{ HOLE_p HOLE_s }')
define(`y_perms', `{ a b } refpolicywarn(`text')')
define(`HOLE_b', `HOLE_r')
@*/
#define NE 4
static union { FTSENT e; char room[sizeof(FTSENT) + 10]; } en[NE];
static unsigned at, opens;
static bool there, roots_ok;
int vf_access(const char *p, int m) { (void)m; return there && vf_eq(p, "d") ? 0 : -1; }
FTS *vf_fts_open(char *const *p, int o, int (*c)(const FTSENT **, const FTSENT **))
{
	(void)c; (void)o;
	opens++;
	roots_ok = vf_eq(p[0], "d") && p[1] == NULL;
	return (FTS *)(void *)&opens;
}
FTSENT *vf_fts_read(FTS *f) { (void)f; return at < NE ? &en[at++].e : NULL; }
int vf_fts_close(FTS *f) { (void)f; opens--; return 0; }
int vf_fts_set(FTS *f, FTSENT *e, int o) { (void)f; (void)e; (void)o; return 0; }
static bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
#if CASE == 0
static char n0[9], n1[9], n2[9], n3[9];
static char *const nm[NE] = { n0, n1, n2, n3 };
void vf_main(void)
{
	static char q[9];
	bool cl = false, pe = false, anyp = false;
	unsigned info[NE], lev[NE];
	VF_PICK(q, "perms", "index", "file", "a", "read");
	for (unsigned i = 0; i < NE; i++) {
		char *b = nm[i];
		static const char *const opt[] = { "perms", "index", "file", "a", "read" };
		vf_pick(b, opt, 5, 8);
		char *n = (char *)&en[i] + offsetof(FTSENT, fts_name);
		for (unsigned k = 0; k < 9; k++) n[k] = b[k];
		info[i] = vf_u(4);
		lev[i] = vf_u(3);
		en[i].e.fts_info = info[i] == 0 ? FTS_D : info[i] == 1 ? FTS_DP : info[i] == 2 ? FTS_F : FTS_SL;
		en[i].e.fts_level = (short)lev[i];
		if (info[i] == 0 && lev[i] != 0 && !vf_eq(b, "perms") && vf_eq(b, q)) cl = true;
		if (info[i] == 2 && !vf_eq(b, "index")) { anyp = true; if (vf_eq(b, q)) pe = true; }
	}
	there = vf_b();
	enum selint_error r = load_access_vectors_kernel("d");
	if (!there) {
		VF_ASSERT(r == SELINT_IO_ERROR && opens == 0 && decl_map_count(DECL_CLASS) == 0 && decl_map_count(DECL_PERM) == 0, "without the directory nothing is loaded and the caller is told");
		VF_WITNESS("absent");
		return;
	}
	VF_ASSERT(roots_ok && opens == 0 && at == NE, "the whole directory is read and closed again");
	VF_ASSERT((r == SELINT_SUCCESS) == anyp, "loading succeeds exactly if there is a permission");
	VF_ASSERT((look_up_in_decl_map(q, DECL_CLASS) != NULL) == cl, "classes are the directories below the top, except perms");
	VF_ASSERT((look_up_in_decl_map(q, DECL_PERM) != NULL) == pe, "permissions are the files, except index");
	if (cl) VF_WITNESS("class");
	if (pe) VF_WITNESS("permission");
}
#elif CASE == 1
/* one arbitrary line of LEN bytes */
void vf_main(void)
{
	char *s = vf_line_any;
	for (unsigned i = 0; i < LEN; i++) {
		s[i] = (char)vf_nd_raw();
		VF_ASSUME(s[i] != '\0' && (i + 1 == LEN || s[i] != '\n'));
	}
	/* blank* name blank* = blank* word blank* */
	char name[LEN + 1], word[LEN + 1];
	unsigned st = 0, nn = 0, nw = 0, eqs = 0;
	bool comment = false, words = true, any = false;
	for (unsigned i = 0; i < LEN; i++) {
		char c = s[i];
		if (!any && !blank(c)) { any = true; comment = c == '#'; }
		if (c == '=') eqs++;
		if (c == '=' && st <= 2) st = 3;
		else if (blank(c)) st = st == 1 ? 2 : st == 4 ? 5 : st;
		else if (st == 0 || st == 1) { st = 1; name[nn++] = c; }
		else if (st == 3 || st == 4) { st = 4; if (c == '=') words = false; else word[nw++] = c; }
		else words = false;
	}
	name[nn] = word[nw] = '\0';
	bool good = any && !comment && words && nn && nw && eqs == 1;
	enum selint_error r = load_modules_source("any");
	VF_ASSERT(r == SELINT_SUCCESS || r == SELINT_PARSE_ERROR, "a line is taken or refused");
	VF_ASSERT(vf_closed == vf_opened, "the file is closed again");
	if (!any || comment) {
		VF_ASSERT(r == SELINT_SUCCESS, "comments and blank lines are skipped");
#if LEN > 3
		VF_ASSERT(look_up_in_mods_map(name) == NULL, "and list no module");
#endif
		VF_WITNESS("skipped");
	} else if (good) {
#if LEN > 2
		const char *v = look_up_in_mods_map(name);
		VF_ASSERT(r == SELINT_SUCCESS && v != NULL, "a setting lists its module");
		VF_ASSERT(!v || vf_eq(v, word), "with the given status");
		VF_WITNESS("module");
#endif
	} else if (!eqs) {
#if LEN > 1
		VF_ASSERT(r == SELINT_PARSE_ERROR, "a line without = is refused");
		VF_WITNESS("refused");
#endif
	}
}
#elif CASE == 2
static void setting(char *to, char *name, const char *word, const char *before, const char *mid, const char *end)
{
	unsigned n = 0;
	for (; *before; before++) to[n++] = *before;
	name[0] = to[n++] = 'a'; name[1] = to[n++] = (char)vf_nd_raw(); VF_ASSUME(name[1] != '\0' && !blank(name[1]) && name[1] != '=');
	for (; *mid; mid++) to[n++] = *mid;
	for (; *word; word++) to[n++] = *word;
	for (; *end; end++) to[n++] = *end;
}
void vf_main(void)
{
	static char a[3], b[3], q[3];
	static const char va[] = "base", vb[] = "off";
	setting(vf_line_a, a, va, "", " = ", "\n");
	setting(vf_line_b, b, vb, " \t", "= ", "");
	q[0] = 'a'; q[1] = (char)vf_nd_raw(); VF_ASSUME(q[1] != '\0');
	enum selint_error r = load_modules_source("mods");
	VF_ASSERT(r == SELINT_SUCCESS && vf_closed == vf_opened, "the file is read");
	const char *e = vf_eq(q, a) ? va : vf_eq(q, b) ? vb : NULL;
	const char *v = look_up_in_mods_map(q);
	VF_ASSERT((v != NULL) == (e != NULL), "exactly the listed modules are known");
	VF_ASSERT(!v || !e || vf_eq(v, e), "a module has the status of its first line");
	if (v) VF_WITNESS("listed"); else VF_WITNESS("not listed");
	if (v && vf_eq(q, b)) VF_WITNESS("listed in the last line");
	VF_ASSERT(load_modules_source("missing") == SELINT_IO_ERROR, "a missing file is told");
}
#elif CASE == 3
void vf_main(void)
{
	static const char *const l[] = { "abc = on\n", "abc on\n", "abc = on = off\n", "abc =\n", "= on\n", "abc\n" };
	unsigned k[3];
	char *const to[3] = { vf_line_a, vf_line_b, vf_line_c };
	bool bad = false;
	for (unsigned i = 0; i < 3; i++) {
		k[i] = (WHICH >> (2 * i)) & 3;
		const char *s = l[k[i]];
		unsigned j = 0;
		for (; s[j]; j++) to[i][j] = s[j];
		bad = bad || k[i] == 1 || k[i] == 2;
	}
	enum selint_error r = load_modules_source("bad");
	VF_ASSERT((r == SELINT_SUCCESS) == !bad, "one bad line makes the file bad");
	VF_ASSERT(vf_closed == vf_opened, "the file is closed again");
	VF_WITNESS("read");
}
#elif CASE == 4 || CASE == 5
static bool is(const char *q, const char *x) { return vf_eq(q, x); }
void vf_main(void)
{
	static char q[4];
#if CASE == 4
	ID3(a); ID3(b);
#endif
	ID3(c); ID3(d); ID3(e); ID3(f); ID3(g); ID3(h); ID3(p); ID3(q); ID3(r); ID3(s);
	vf_ident(q, 1, 3);
	enum selint_error r = load_access_vectors_source("av");
	VF_ASSERT(r == SELINT_SUCCESS && vf_closed == vf_opened, "the file is read");
	bool cl = is(q, HO(d)) || is(q, HO(e)) || is(q, HO(g));
	bool pe = is(q, HO(p)) || is(q, HO(q)) || is(q, HO(r)) || is(q, HO(s));
	VF_ASSERT((look_up_in_decl_map(q, DECL_CLASS) != NULL) == cl, "exactly the classes are known classes");
	VF_ASSERT((look_up_in_decl_map(q, DECL_PERM) != NULL) == pe, "exactly the permissions, also of commons, are known permissions");
	if (cl && !pe) VF_WITNESS("class"); 
	if (pe && !cl) VF_WITNESS("permission");
	if (!pe && !cl) VF_WITNESS("neither");
	VF_ASSERT(load_access_vectors_source("missing") == SELINT_IO_ERROR, "a missing file is told");
}
#else
static unsigned seen, count_;
static void visit(const char *n, const struct string_list *l) { (void)n; (void)l; seen++; }
static bool two(const struct string_list *l, const char *a, const char *b) { return l && vf_eq(l->string, a) && (b ? l->next && vf_eq(l->next->string, b) && !l->next->next : !l->next); }
void vf_main(void)
{
	VF_PICK(vf_hole_a, "read_x_perms", "x_perms", "x_perm", "_perms", "perms", "q", "a_permss", "z_perms");
	VF_PICK(vf_hole_b, "z_perms", "z_perm", "x_perms", "read_x_perms");
	ID3(p); ID3(q); ID3(r); ID3(s);
	static char q[14];
	VF_PICK(q, "read_x_perms", "x_perms", "x_perm", "_perms", "perms", "q", "y_perms", "a_permss", "z_perms", "z_perm");
	enum selint_error r = load_obj_perm_sets_source("spt");
	VF_ASSERT(r == SELINT_SUCCESS && vf_closed == vf_opened, "the file is read");
	bool pm = vf_eq(q, "read_x_perms") || vf_eq(q, "x_perms") || vf_eq(q, "_perms") || vf_eq(q, "z_perms");
	const struct string_list *l = look_up_in_permmacros_map(q);
	if (pm && vf_eq(q, HO(a))) { VF_ASSERT(two(l, HO(p), HO(q)), "a macro stands for its first definition"); VF_WITNESS("first"); }
	else if (vf_eq(q, "read_x_perms")) { VF_ASSERT(two(l, HO(r), NULL), "a macro stands for its first definition"); VF_WITNESS("second"); }
	else if (pm && vf_eq(q, HO(b))) { VF_ASSERT(two(l, HO(r), NULL), "a macro stands for its first definition"); VF_WITNESS("last"); }
	else { VF_ASSERT(l == NULL, "only current permission macros are known"); VF_WITNESS("none"); }
	visit_all_in_permmacros_map(visit);
	VF_ASSERT(seen == permmacros_map_count(), "each macro is visited once");
	VF_ASSERT(load_obj_perm_sets_source("missing") == SELINT_IO_ERROR, "a missing file is told");
}
#endif
