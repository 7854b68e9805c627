/* One line of a file-context file: a fixed beginning and K arbitrary bytes. */
#include "world.h"
#include "parse_fc.h"
/*@lines none
@*/
/* blocks of one size, whatever is asked for (what is written stays below it) */
void *vf_cap_malloc(size_t n)
{
#ifdef VF_SYMBOLIC
	__CPROVER_assert(n <= 64, "B:block size");
	return malloc(64);
#else
	return malloc(n);
#endif
}
static const char pre[] = PRE;
#define N (sizeof pre - 1 + K)
static char orig[N + 1];
static bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static bool sp(char c) { return c == ' ' || c == '\t'; }
/* [from, to) of the line, as written */
static bool same(const char *s, unsigned from, unsigned to)
{
	bool ok = s != NULL;
	if (!ok) return false;
	unsigned n = 0;
	bool end = false;
	for (unsigned i = 0; i < N; i++)
		if (i >= from && i < to && !end) {
			if (s[n] != orig[i]) { ok = false; end = true; } else n++;
		}
	return ok && s[n] == '\0';
}
static bool starts(unsigned at, unsigned end, const char *w)
{
	bool ok = true;
	for (unsigned i = 0; w[i]; i++) ok = ok & (at + i < end && orig[at + i < N ? at + i : N] == w[i]);
	return ok;
}
void vf_main(void)
{
	unsigned n = sizeof pre - 1;
	char *s = malloc(N + 1);
	for (unsigned i = 0; i < n; i++) s[i] = orig[i] = pre[i];
	for (unsigned i = n; i < N; i++) { s[i] = orig[i] = (char)vf_nd_raw(); VF_ASSUME(orig[i] != '\0' && (i + 1 == N || orig[i] != '\n')); }
	s[N] = orig[N] = '\0';
#ifndef MEMORY
	unsigned end = N;
	for (unsigned i = 0; i < N; i++) if (end == N - i && blank(orig[N - i - 1])) end = N - i - 1;
	/* words, the beginning of the third part: st 0 before the path, 1 path, 2 after it, 3 second word, 4 after it, 5 third */
	unsigned st = 0, p0 = 0, p1 = 0, w0 = 0, w1 = 0, x0 = 0;
	for (unsigned i = 0; i < N; i++) {
		if (i >= end) continue;
		bool b = sp(orig[i]);
		if (st == 0 && !b) { st = 1; p0 = i; }
		else if (st == 1 && b) { st = 2; p1 = i; }
		else if (st == 2 && !b) { st = 3; w0 = i; w1 = end; }
		else if (st == 3 && b) { st = 4; w1 = i; }
		else if (st == 4 && !b) { st = 5; x0 = i; }
	}
	bool bad = st < 3, unsure = false;
	char obj = 0;
	unsigned c0 = w0;               /* where the context begins */
	if (!bad && orig[w0] == '-') {
		if (w1 - w0 != 2 || st != 5) bad = true;
		else { obj = orig[w0 + 1]; c0 = x0; }
	}
	bool gen = !bad && starts(c0, end, "gen_context("), none = !bad && end - c0 == 8 && starts(c0, end, "<<none>>");
	/* fields of the context: f 0 user, 1 role, 2 type, 3 range or first part of the level, 4 second part */
	unsigned f = 0, a[5] = { 0 }, z[5] = { 0 };
	bool closed = false, paren = false, comma = false;
	unsigned from = gen ? c0 + 12 : c0;
	a[0] = from;
	if (!bad && !none) {
		for (unsigned i = 0; i < N; i++) {
			if (i < from || i >= end) continue;
			char c = orig[i];
			if (closed) { unsure = true; continue; }
			if (c == '(' && !comma) paren = true;
			if (c == '(' && comma) unsure = true;
			if (gen && c == ')') { closed = true; z[f] = i; }
			else if (c == ':' && !comma) { z[f] = i; if (f < 3 && !(gen && f == 2)) { f++; a[f] = i + 1; } else unsure = true; }
			else if (gen && c == ',') {
				if (comma ? f == 4 : f != 2) unsure = true;
				else { z[f] = i; f++; a[f] = i + 1; comma = true; }
			} else if (!comma && sp(c)) unsure = true;
			if (!gen && c == ')') unsure = true;
		}
		if (!gen) z[f] = end;
		if (gen && !closed) bad = true;
		if (paren) bad = true;
		if (!unsure && f < 2) bad = true;
		for (unsigned i = 0; i < 5; i++) {
			if (i > f) continue;
			/* blanks before the parts of a level are not part of them */
			if (i >= 3 && gen) for (unsigned j = 0; j < N; j++) if (a[i] == j && j < z[i] && sp(orig[j])) a[i]++;
			if (a[i] >= z[i]) { if (i < 3 && f <= 3 && !comma && !unsure) bad = bad || f <= 2; unsure = true; }
		}
	}
#endif
	struct fc_entry *e = parse_fc_line(s);
#ifdef MEMORY
	VF_ASSERT(e == NULL || e->path != NULL, "an accepted line has a path");
	if (!e) VF_WITNESS("refused");
#else
	if (bad) {
		VF_ASSERT(e == NULL, "a line that lacks a part is refused");
		VF_WITNESS("refused");
	} else if (!unsure) {
		VF_ASSERT(e != NULL, "a well-formed line is accepted");
		VF_ASSUME(e != NULL);
		VF_ASSERT(same(e->path, p0, p1) && e->obj == obj, "path and object class are those written");
		struct sel_context *x = e->context;
		VF_ASSERT((x == NULL) == none, "a context is recorded unless it is <<none>>");
		if (!none) {
			VF_ASSUME(x != NULL);
			VF_ASSERT(same(x->user, a[0], z[0]) && same(x->role, a[1], z[1]) && same(x->type, a[2], z[2]), "user, role and type are those written");
			VF_ASSERT(!!x->has_gen_context == gen, "gen_context is recorded");
			if (f < 3) VF_ASSERT(x->range == NULL, "there is no range");
			else if (f == 3) VF_ASSERT(same(x->range, a[3], z[3]), "the range is the one written");
			else {
				VF_ASSERT(x->range != NULL, "there is a range");
				VF_ASSUME(x->range != NULL);
				unsigned l = z[3] - a[3];
				bool ok = true;
				for (unsigned i = 0; i < N; i++) if (i < l) ok = ok & (x->range[i] == orig[a[3] + i < N ? a[3] + i : N]);
				VF_ASSERT(ok && x->range[l] == ':' && same(x->range + l + 1, a[4], z[4]), "the range is sensitivity and categories");
			}
		}
		VF_WITNESS("accepted");
	}
#endif
}
