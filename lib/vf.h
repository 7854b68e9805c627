/* Harness interface.  The same harness source is compiled twice:
 *  - with goto-cc (VF_SYMBOLIC defined): nondeterministic values are symbolic,
 *    VF_ASSERT is a proof obligation, VF_WITNESS a reachability obligation
 *    (an assertion that has to come back violated);
 *  - with gcc + sanitizers against the unmodified sources, the real libc and
 *    the real uthash: the values are read from a replay file. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>

void vf_main(void);                 /* every harness defines this */
unsigned vf_nd_raw(void);           /* next nondeterministic value, 0..255 */
void vf_begin(void);

/* end this path here; natively, finish with what was asserted so far */
void vf_stop(void);

#ifdef VF_SYMBOLIC
unsigned char nondet_uchar(void);
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_ASSERT(c, d) __CPROVER_assert(c, "P:" d)
#define VF_WITNESS(d) __CPROVER_assert(0, "W:" d)
#define VF_ATOMIC_STR 1
#else
void vf_assume(int c);
void vf_assert(int c, const char *d);
void vf_witness(const char *d);
#define VF_ASSUME(c) vf_assume(!!(c))
#define VF_ASSERT(c, d) vf_assert(!!(c), d)
#define VF_WITNESS(d) vf_witness(d)
#endif

/* value in [0, n), n <= 256 */
static inline unsigned vf_u(unsigned n)
{
	unsigned v = vf_nd_raw();
	VF_ASSUME(v < n);
	return v;
}
static inline bool vf_b(void) { return vf_u(2) != 0; }

/* any byte string of length 0..n without embedded NUL; buf has n + 1 bytes */
static inline void vf_str(char *buf, unsigned n)
{
	for (unsigned i = 0; i < n; i++)
		buf[i] = (char)vf_nd_raw();
	buf[n] = '\0';
}
/* any byte string of length exactly n (no NUL inside) */
static inline void vf_strn(char *buf, unsigned n)
{
	for (unsigned i = 0; i < n; i++) {
		buf[i] = (char)vf_nd_raw();
		VF_ASSUME(buf[i] != '\0');
	}
	buf[n] = '\0';
}
static inline bool vf_id_first(unsigned char c)
{
	return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '$' || c == '/';
}
static inline bool vf_id_char(unsigned char c)
{
	return vf_id_first(c) || (c >= '0' && c <= '9') || c == '_' || c == '*' || c == '-';
}
/* any identifier the lexer would return as STRING, of length lo..n */
static inline void vf_ident(char *buf, unsigned lo, unsigned n)
{
	bool end = false;
	for (unsigned i = 0; i < n; i++) {
		unsigned char c = (unsigned char)vf_nd_raw();
		if (i < lo)
			VF_ASSUME(c != 0);
		if (end)
			VF_ASSUME(c == 0);
		if (c == 0)
			end = true;
		else
			VF_ASSUME(i == 0 ? vf_id_first(c) : vf_id_char(c));
		buf[i] = (char)c;
	}
	buf[n] = '\0';
}
static inline bool vf_eq(const char *a, const char *b)
{
	size_t i = 0;
	while (a[i] && a[i] == b[i])
		i++;
	return a[i] == b[i];
}

/* Captured standard output.  Natively these are the bytes written; symbolically
 * each cell is a byte or one formatted number (value plus its printf
 * specification), so that a number's digits never have to be computed.
 * An expectation is built piecewise and compared as a whole. */
#define VF_OUT_MAX 600
extern unsigned vf_out_len;
void vf_out_reset(void);
void vf_out_sync(void);             /* native: fetch what was written since the reset */
void vf_ex_reset(void);
void vf_ex_str(const char *s);
void vf_ex_chr(char c);
void vf_ex_num(unsigned v, unsigned width, char pad);
void vf_ex_any(void);               /* one message: any text without a line end */
bool vf_ex_match(void);             /* captured output == expectation */
#endif
