/* Native side of the harness interface: values come from argv[1] (one decimal
 * number per line); exit 0 = all assertions held, 10 = an assertion failed,
 * 20 = the values do not satisfy the harness assumptions. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "vf.h"

static unsigned *vals, nvals, pos;
static int failed;
static FILE *rep;
static char vf_out[VF_OUT_MAX];
static char ex[VF_OUT_MAX];
static unsigned exl;
static int wild;
void vf_ex_reset(void) { exl = 0; wild = -1; }
void vf_ex_chr(char c) { if (exl < VF_OUT_MAX) ex[exl++] = c; }
void vf_ex_str(const char *s) { while (*s) vf_ex_chr(*s++); }
void vf_ex_num(unsigned v, unsigned width, char pad)
{
	char b[64];
	snprintf(b, sizeof b, pad == '0' ? "%0*u" : "%*u", (int)width, v);
	vf_ex_str(b);
}
void vf_ex_any(void) { wild = (int)exl; }
unsigned vf_out_len;
static int cap_fd = -1;
static off_t cap_base;

unsigned vf_nd_raw(void) { return pos < nvals ? vals[pos++] & 255u : (pos++, 0u); }
void vf_assume(int c) { if (!c) { fprintf(rep, "ASSUME-VIOLATED after %u values\n", pos); fflush(rep); _exit(20); } }
void vf_assert(int c, const char *d) { if (!c) { fprintf(rep, "VF-FAIL %s\n", d); fflush(rep); failed = 1; } }
void vf_witness(const char *d) { fprintf(rep, "VF-WITNESS %s\n", d); fflush(rep); }
void vf_out_sync(void)
{
	fflush(stdout);
	struct stat st;
	fstat(cap_fd, &st);
	size_t n = (size_t)(st.st_size - cap_base);
	if (n > VF_OUT_MAX) n = VF_OUT_MAX;
	ssize_t r = pread(cap_fd, vf_out, n, cap_base);
	vf_out_len = r < 0 ? 0 : (unsigned)r;
}
bool vf_ex_match(void)
{
	if (wild < 0) return vf_out_len == exl && memcmp(vf_out, ex, exl) == 0;
	if (vf_out_len < exl) return false;
	unsigned m = vf_out_len - exl, w = (unsigned)wild;
	return memcmp(vf_out, ex, w) == 0 && memchr(vf_out + w, '\n', m) == NULL &&
	       memcmp(vf_out + w + m, ex + w, exl - w) == 0;
}
void vf_out_reset(void)
{
	fflush(stdout);
	struct stat st;
	fstat(cap_fd, &st);
	cap_base = st.st_size;
	vf_out_len = 0;
}

void vf_stop(void)
{
	fprintf(rep, failed ? "RESULT violated\n" : "RESULT held\n");
	fflush(rep);
	_exit(failed ? 10 : 0);
}

int main(int argc, char **argv)
{
	rep = fdopen(dup(1), "w");
	FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
	vals = calloc(65536, sizeof *vals);
	unsigned v;
	while (f && nvals < 65536 && fscanf(f, "%u", &v) == 1) vals[nvals++] = v;
	char tmpl[] = "/tmp/vfout.XXXXXX";
	cap_fd = mkstemp(tmpl);
	unlink(tmpl);
	fflush(stdout);
	dup2(cap_fd, 1);
	vf_main();
	vf_stop();
}
