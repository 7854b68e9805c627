/* Settings of the configuration file.  The file is read by libconfuse: modelled
 * as a table of options (whatever the file says), replayed with the library and
 * a real file. */
#include "world.h"
#include "selint_config.h"
#include <confuse.h>
#include <unistd.h>
#include <fcntl.h>
/*@lines none
@*/
#define W 16                            /* longest value */
#define NOPT 12
#ifndef SYM
#define SYM 255
#endif
static const char *const oname[NOPT] = { "severity", "disable", "enable_normal", "enable_source", "assume_users", "assume_roles", "custom_fc_macros",
	"custom_te_simple_macros", "ordering_rules", "ordering_requires", "ordering_requires_same_flavor", "skip_checking_generated_fcs" };
static bool present[NOPT];
static unsigned count[NOPT];            /* entries of a list */
#define MAXN 7
static char *val[NOPT * MAXN];
static bool file_bad;
static char *newval(void) { return calloc(W + 1, 1); }
static char *V(unsigned o, unsigned i) { return val[o * MAXN + i]; }
static bool vchar(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_'; }
static void word(char *b, unsigned n)
{
	bool end = false;
	for (unsigned i = 0; i < n; i++) {
		char c = (char)vf_nd_raw();
		if (end || c == 0) { VF_ASSUME(c == 0); end = true; }
		else VF_ASSUME(vchar(c));
		b[i] = c;
	}
}
#ifdef VF_SYMBOLIC
static cfg_t the_cfg;
static cfg_opt_t *opts;
cfg_t *cfg_init(cfg_opt_t *o, cfg_flag_t f) { (void)f; opts = o; return &the_cfg; }
int cfg_free(cfg_t *c) { (void)c; return 0; }
int cfg_parse(cfg_t *c, const char *n) { (void)c; (void)n; return file_bad ? CFG_PARSE_ERROR : CFG_SUCCESS; }
static unsigned find(const char *name)
{
	for (unsigned o = 0; o < NOPT; o++) if (strcmp(oname[o], name) == 0) return o;
	VF_ASSERT(0, "only documented options are read");
	return 0;
}
static const cfg_opt_t *opt(const char *name)
{
	unsigned k = 0;
	while (k < 40 && opts[k].name && strcmp(opts[k].name, name) != 0) k++;
	VF_ASSERT(k < 40 && opts[k].name != NULL, "an option that is read is defined");
	return &opts[k];
}
/* word number n of a default list "{ a, b }" */
static unsigned defword(const char *d, unsigned n, char *to)
{
	unsigned k = 0, i = 0;
	while (d[i]) {
		if (!vchar(d[i])) { i++; continue; }
		unsigned j = 0;
		while (vchar(d[i])) { if (k == n && to && j < W) to[j++] = d[i]; i++; }
		if (k == n && to) to[j] = '\0';
		k++;
	}
	return k;
}
char *cfg_getstr(cfg_t *c, const char *name)
{
	(void)c;
	unsigned o = find(name);
	const char *d = opt(name)->def.string, *v = V(o, 0);
	char *b = calloc(W + 1, 1);
	bool end = false;
	for (unsigned i = 0; i < W; i++) {
		char dc = end ? '\0' : d[i];
		if (!dc) end = true;
		b[i] = present[o] ? v[i] : dc;
	}
	return b;
}
unsigned cfg_size(cfg_t *c, const char *name)
{
	(void)c;
	unsigned o = find(name), n = defword(opt(name)->def.parsed, MAXN, NULL);
	return present[o] ? count[o] : n;
}
char *cfg_getnstr(cfg_t *c, const char *name, unsigned n)
{
	(void)c;
	unsigned o = find(name);
	char *b = calloc(W + 1, 1), *d = calloc(W + 1, 1);
	if (n >= MAXN) return NULL;
	defword(opt(name)->def.parsed, n, d);
	for (unsigned i = 0; i < W; i++) b[i] = present[o] ? (V(o, n) ? V(o, n)[i] : '\0') : d[i];
	return b;
}
static const char *path(void) { return "c"; }
#else
static const char *path(void)
{
	static char p[] = "/tmp/vfconfXXXXXX";
	FILE *f = fdopen(mkstemp(p), "w");
	for (unsigned o = 0; o < NOPT; o++) {
		if (!present[o]) continue;
		if (o == 0 || o == 8 || o >= 10) fprintf(f, "%s = \"%s\"\n", oname[o], V(o, 0));
		else {
			fprintf(f, "%s = {", oname[o]);
			for (unsigned i = 0; i < count[o]; i++) fprintf(f, "%s \"%s\"", i ? "," : "", V(o, i));
			fprintf(f, " }\n");
		}
	}
	if (file_bad) fprintf(f, "disable = = {\n");
	fclose(f);
	return p;
}
#endif
static char sev;
static struct string_list *dis, *en, *fcm;
static struct config_check_data ccd;
static int src;
static enum selint_error load(void)
{
	const char *p = path();
	enum selint_error r = parse_config(p, src, &sev, &dis, &en, &fcm, &ccd);
#ifndef VF_SYMBOLIC
	unlink(p);
#endif
	return r;
}
static int boolword(const char *s)
{
	static const char *const t[3] = { "true", "True", "TRUE" }, *const y[3] = { "yes", "Yes", "YES" }, *const f[3] = { "false", "False", "FALSE" }, *const n[3] = { "no", "No", "NO" };
	for (unsigned i = 0; i < 3; i++) {
		if (vf_eq(t[i], s) || vf_eq(y[i], s)) return 1;
		if (vf_eq(f[i], s) || vf_eq(n[i], s)) return 0;
	}
	return -1;
}
static const char *const fl[6] = { "bool", "class", "role", "attribute_role", "attribute", "type" };
static const enum decl_flavor fv[6] = { DECL_BOOL, DECL_CLASS, DECL_ROLE, DECL_ATTRIBUTE_ROLE, DECL_ATTRIBUTE, DECL_TYPE };
#if CASE == 0
void vf_main(void)
{
	static const unsigned s[4] = { 0, 8, 10, 11 };
	static const char *const ok[4][3] = { { "style", "fatal", "Style" }, { "refpolicy", "refpolicy-light", "lax" }, { "yes", "False", "nO" }, { "NO", "true", "1" } };
	for (unsigned i = 0; i < 4; i++) {
		char *b = val[s[i] * MAXN] = newval();
		present[s[i]] = vf_b();
		if (i == ONE) { word(b, W); continue; }
		unsigned k = vf_u(3);
		for (unsigned f = 0; f < 3; f++) if (k == f) for (unsigned c = 0; ok[i][f][c]; c++) b[c] = ok[i][f][c];
	}
	file_bad = vf_b();
	src = vf_b();
	static const char *const sw[5] = { "convention", "style", "warning", "error", "fatal" }, *const ow[3] = { "refpolicy", "refpolicy-light", "refpolicy-lax" };
	char es = present[0] ? 0 : 'C';
	for (unsigned i = 0; i < 5; i++) if (present[0] && vf_eq(sw[i], V(0, 0))) es = "CSWEF"[i];
	int eo = present[8] ? -1 : 2;
	for (int i = 0; i < 3; i++) if (present[8] && vf_eq(ow[i], V(8, 0))) eo = i;
	int b1 = present[10] ? boolword(V(10, 0)) : 1, b2 = present[11] ? boolword(V(11, 0)) : 1;
	bool good = !file_bad && es && eo >= 0 && b1 >= 0 && b2 >= 0;
	enum selint_error r = load();
	VF_ASSERT((r == SELINT_SUCCESS) == good, "a configuration is accepted exactly if every setting has a documented value");
	if (!good) { VF_ASSERT(r == SELINT_CONFIG_PARSE_ERROR, "a refused configuration is a configuration error"); VF_WITNESS("refused"); return; }
	VF_ASSERT(sev == es, "severity is the configured one");
	VF_ASSERT((int)ccd.order_conf - ORDER_REF == (eo == 0 ? 0 : eo == 1 ? ORDER_LIGHT - ORDER_REF : ORDER_LAX - ORDER_REF), "ordering rules are the configured ones");
	VF_ASSERT(ccd.ordering_requires_same_flavor == (b1 == 1) && ccd.skip_checking_generated_fcs == (b2 == 1), "switches are the configured ones");
	bool o = true;
	for (unsigned i = 0; i < 6; i++) o = o & (ccd.order_requires[i] == fv[i]);
	VF_ASSERT(o, "the default order of required kinds applies unless set");
	VF_ASSERT(!dis && !en && !fcm && !ccd.custom_te_simple_macros, "lists are empty unless set");
	VF_WITNESS("accepted");
	if (present[0] & present[8] & present[10] & present[11]) VF_WITNESS("accepted with everything set");
}
#elif CASE == 1
/* lists of checks and macros: LEN entries each */
static bool same(const struct string_list *l, unsigned o)
{
	bool ok = true;
	for (unsigned i = 0; i < LEN; i++) {
		if (!l) return false;
		ok = ok & vf_eq(l->string, V(o, i));
		l = l->next;
	}
	return ok & (l == NULL);
}
void vf_main(void)
{
	static const unsigned s[5] = { 1, 2, 3, 6, 7 };
	for (unsigned k = 0; k < 5; k++) {
		present[s[k]] = true;
		count[s[k]] = LEN;
		for (unsigned i = 0; i < LEN; i++) word(val[s[k] * MAXN + i] = newval(), 5);
	}
	src = SRC;
	enum selint_error r = load();
	VF_ASSERT(r == SELINT_SUCCESS, "accepted");
	VF_ASSERT(same(dis, 1), "the disabled checks are those listed, in order");
	VF_ASSERT(same(en, SRC ? 3 : 2), "the enabled checks are those listed for the mode");
	VF_ASSERT(same(fcm, 6) && same(ccd.custom_te_simple_macros, 7), "the custom macros are those listed");
	VF_WITNESS("read");
}
#elif CASE == 2
void vf_main(void)
{
	static char q[W + 1];
	static const unsigned s[2] = { 4, 5 };
	for (unsigned k = 0; k < 2; k++) {
		present[s[k]] = true;
		count[s[k]] = LEN;
		for (unsigned i = 0; i < LEN; i++) { word(val[s[k] * MAXN + i] = newval(), 3); VF_ASSUME(V(s[k], i)[0]); }
	}
	word(q, 3);
	VF_ASSUME(q[0]);
	enum selint_error r = load();
	VF_ASSERT(r == SELINT_SUCCESS, "accepted");
	bool u = false, ro = false;
	for (unsigned i = 0; i < LEN; i++) { u = u | vf_eq(q, V(4, i)); ro = ro | vf_eq(q, V(5, i)); }
	VF_ASSERT((look_up_in_decl_map(q, DECL_USER) != NULL) == u, "exactly the assumed users are known users");
	VF_ASSERT((look_up_in_decl_map(q, DECL_ROLE) != NULL) == ro, "exactly the assumed roles are known roles");
	VF_ASSERT(!look_up_in_decl_map(q, DECL_TYPE) && !look_up_in_decl_map(q, DECL_ATTRIBUTE_ROLE), "nothing else becomes known");
#if LEN
	if (u) VF_WITNESS("known user"); 
	if (ro) VF_WITNESS("known role");
#endif
	VF_WITNESS("read");
}
#else
/* order of required kinds: LEN entries */
void vf_main(void)
{
	present[9] = true;
	count[9] = LEN;
	/* each entry is one of the six kinds; entry POS, if there is one, any word, and the others then fixed kinds */
	bool good = LEN == 6;
	enum decl_flavor e[MAXN];
	for (unsigned i = 0; i < LEN; i++) {
		char *b = val[9 * MAXN + i] = newval();
		if (i == POS) {
			word(b, W);
			bool f = false;
			for (unsigned k = 0; k < 6; k++) if (vf_eq(b, fl[k])) { f = true; e[i] = fv[k]; }
			good = good & f;
		} else {
			unsigned k = POS < LEN || !((SYM >> i) & 1) ? (i + 2) % 6 : vf_u(6);
			e[i] = fv[k];
			for (unsigned f = 0; f < 6; f++) if (k == f) for (unsigned c = 0; c < W; c++) b[c] = c < strlen(fl[f]) ? fl[f][c] : '\0';
		}
	}
	for (unsigned i = 0; i < LEN; i++) for (unsigned j = 0; j < i; j++) good = good & (e[i] != e[j]);
	enum selint_error r = load();
	VF_ASSERT((r == SELINT_SUCCESS) == good, "an order is accepted exactly if it lists the six kinds once each");
	if (!good) { VF_ASSERT(r == SELINT_CONFIG_PARSE_ERROR, "a refused configuration is a configuration error"); VF_WITNESS("refused"); return; }
#if LEN == 6
	bool o = true;
	for (unsigned i = 0; i < 6; i++) o = o & (ccd.order_requires[i] == e[i]);
	VF_ASSERT(o, "the order is the listed one");
	VF_WITNESS("accepted");
#endif
}
#endif
