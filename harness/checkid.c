/* Which strings are check IDs. */
#include "world.h"
/*@lines none
@*/
static bool all = true;
static unsigned nreg;
enum selint_error vf_add_check(enum node_flavor f, struct checks *ck, const char *id, void *fn)
{
	(void)ck; (void)f; (void)fn;
	nreg++;
	if (!is_valid_check(id)) all = false;
	return SELINT_SUCCESS;
}
void vf_main(void)
{
	/* LEN arbitrary bytes, in a block of exactly that size */
	char *s = malloc(LEN + 1);
	vf_strn(s, LEN);
	unsigned max = 0;
	if (LEN > 0) max = s[0] == 'C' ? 7 : s[0] == 'S' ? 10 : s[0] == 'W' ? 11 : s[0] == 'E' ? 10 : s[0] == 'F' ? 2 : 0;
	bool v = is_valid_check(s);
	bool pre = LEN > 2 && max && s[1] == '-', num = LEN > 2;
	unsigned n = 0;
	for (unsigned i = 2; i < LEN; i++) {
		if (s[i] < '0' || s[i] > '9') num = false;
		else n = n * 10 + (unsigned)(s[i] - '0');
	}
	if (!pre) { VF_ASSERT(!v, "what is no severity letter and dash before a number is no check ID"); VF_WITNESS("no ID"); }
#if LEN > 2
	else if (num) {
		VF_ASSERT(v == (n >= 1 && n <= max), "exactly the numbers of existing checks are check IDs");
		if (v) VF_WITNESS("ID"); else VF_WITNESS("no such number");
	}
#endif
	VF_ASSERT(!is_valid_check(NULL), "no string is no check ID");
#if LEN == 5
	insert_into_decl_map("file", "class", DECL_CLASS);
	insert_into_decl_map("read", "class", DECL_PERM);
	insert_into_permmacros_map("q", sl_from_str("read"));
	struct checks *ck = register_checks('C', NULL, NULL, NULL, NULL, 0);
	VF_ASSERT(ck != NULL && nreg > 0 && all, "every check has a valid ID");
#endif
}
