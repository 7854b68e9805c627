/* libc models for the symbolic build.  Each is the documented contract of the
 * libc function; they are compared with the real libc by tools/selftest. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"

#ifndef VF_STRMAX
#define VF_STRMAX 16
#endif

unsigned char vf_nd_val;
unsigned vf_nd_raw(void)
{
	unsigned char v = nondet_uchar();
	vf_nd_val = v;
	return v;
}

/* cells: 0..255 a byte; bit 31 set: a number, value in vf_out_num */
unsigned vf_out[VF_OUT_MAX], vf_out_num[VF_OUT_MAX];
unsigned vf_out_len;
static unsigned vf_ex[VF_OUT_MAX], vf_exn[VF_OUT_MAX], vf_exl;
#define VF_NUMSPEC(base, width, pad) (0x80000000u | ((base) << 16) | ((unsigned)(width) << 8) | (unsigned char)(pad))
void vf_ex_reset(void) { vf_exl = 0; }
void vf_ex_chr(char c) { vf_ex[vf_exl] = (unsigned char)c; vf_exn[vf_exl++] = 0; }
void vf_ex_str(const char *s) { for (unsigned i = 0; s[i]; i++) vf_ex_chr(s[i]); }
void vf_ex_num(unsigned v, unsigned width, char pad) { vf_ex[vf_exl] = VF_NUMSPEC(10u, width, pad); vf_exn[vf_exl++] = v; }
void vf_ex_any(void) { vf_ex_chr('m'); }
bool vf_ex_match(void)
{
	if (vf_out_len != vf_exl) return false;
	bool ok = true;
	for (unsigned i = 0; i < vf_exl; i++)
		ok = ok & (vf_out[i] == vf_ex[i]) & ((vf_ex[i] >> 31) == 0 || vf_out_num[i] == vf_exn[i]);
	return ok;
}
void vf_out_reset(void) { vf_out_len = 0; }
void vf_out_sync(void) { }
void vf_stop(void) { __CPROVER_assume(0); }

int main(void)
{
	vf_main();
	return 0;
}

#ifndef VF_HEAP_CHECKS
void free(void *p) { }              /* lifetime is not part of these properties */
#endif

/* ---- strings ---------------------------------------------------------- */
/* a null pointer where a string is expected ends the program */
#define VF_NN(p) do { if (!(p)) { __CPROVER_assert(0, "P:no null pointer is used as a string"); __CPROVER_assume(0); } } while (0)
#ifndef VF_EXACT_ALLOC
/* Copies live in fixed-size objects so that no object has a symbolic size. */
char *strdup(const char *s)
{
	VF_NN(s);
	char *r = malloc(VF_STRMAX);
	int end = 0;
	for (unsigned i = 0; i < VF_STRMAX; i++) {
		if (!end && s[i] == '\0')
			end = 1;
		r[i] = end ? '\0' : s[i];
	}
	__CPROVER_assert(r[VF_STRMAX - 1] == '\0', "B:string longer than VF_STRMAX");
	r[VF_STRMAX - 1] = '\0';
	return r;
}
char *strndup(const char *s, size_t n)
{
	VF_NN(s);
	char *r = malloc(VF_STRMAX);
	int end = 0;
	for (unsigned i = 0; i < VF_STRMAX; i++) {
		if (!end && (i >= n || s[i] == '\0'))
			end = 1;
		r[i] = end ? '\0' : s[i];
	}
	__CPROVER_assert(r[VF_STRMAX - 1] == '\0', "B:string longer than VF_STRMAX");
	r[VF_STRMAX - 1] = '\0';
	return r;
}
#else
char *strdup(const char *s)
{
	VF_NN(s);
	size_t n = 0;
	while (s[n]) n++;
	char *r = malloc(n + 1);
	for (size_t i = 0; i < n; i++) r[i] = s[i];
	r[n] = '\0';
	return r;
}
char *strndup(const char *s, size_t max)
{
	VF_NN(s);
	size_t n = 0;
	while (n < max && s[n]) n++;
	char *r = malloc(n + 1);
	for (size_t i = 0; i < n; i++) r[i] = s[i];
	r[n] = '\0';
	return r;
}
#endif

#ifndef VF_STRLIM
#define VF_STRLIM 40                /* longest string any routine below walks */
#endif
#define VF_TOOLONG() __CPROVER_assert(0, "B:string longer than VF_STRLIM")
size_t strlen(const char *s)
{
	VF_NN(s);
	for (size_t i = 0; i < VF_STRLIM; i++) if (!s[i]) return i;
	VF_TOOLONG();
	return VF_STRLIM;
}
int strcmp(const char *a, const char *b)
{
	VF_NN(a);
	VF_NN(b);
	for (size_t i = 0; i < VF_STRLIM; i++) {
		unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
	VF_TOOLONG();
	return 0;
}
int strncmp(const char *a, const char *b, size_t n)
{
	VF_NN(a);
	VF_NN(b);
	for (size_t i = 0; i < VF_STRLIM; i++) {
		if (i >= n) return 0;
		unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
	VF_TOOLONG();
	return 0;
}
char *strcat(char *d, const char *s)
{
	VF_NN(d);
	VF_NN(s);
	size_t n = strlen(d);
	for (size_t i = 0; i < VF_STRLIM; i++) {
		d[n + i] = s[i];
		if (!s[i]) return d;
	}
	VF_TOOLONG();
	return d;
}
char *strcpy(char *d, const char *s)
{
	VF_NN(d);
	VF_NN(s);
	for (size_t i = 0; i < VF_STRLIM; i++) {
		d[i] = s[i];
		if (!s[i]) return d;
	}
	VF_TOOLONG();
	return d;
}
char *strchr(const char *s, int c)
{
	VF_NN(s);
	for (size_t i = 0; i < VF_STRLIM; i++) {
		if (s[i] == (char)c) return (char *)s + i;
		if (s[i] == '\0') return NULL;
	}
	VF_TOOLONG();
	return NULL;
}
char *strrchr(const char *s, int c)
{
	VF_NN(s);
	const char *last = NULL;
	for (size_t i = 0; i < VF_STRLIM; i++) {
		if (s[i] == (char)c) last = s + i;
		if (s[i] == '\0') break;
	}
	return (char *)last;
}
char *strstr(const char *h, const char *n)
{
	VF_NN(h);
	VF_NN(n);
	if (n[0] == '\0') return (char *)h;
	for (size_t i = 0; h[i]; i++) {
		size_t j = 0;
		while (n[j] && h[i + j] == n[j]) j++;
		if (!n[j]) return (char *)h + i;
	}
	return NULL;
}
static int vf_in(char c, const char *set)
{
	for (size_t i = 0; set[i]; i++) if (set[i] == c) return 1;
	return 0;
}
size_t strspn(const char *s, const char *set)
{
	VF_NN(s);
	size_t i = 0;
	while (s[i] && vf_in(s[i], set)) i++;
	return i;
}
size_t strcspn(const char *s, const char *set)
{
	VF_NN(s);
	size_t i = 0;
	while (s[i] && !vf_in(s[i], set)) i++;
	return i;
}
char *strpbrk(const char *s, const char *set)
{
	size_t i = strcspn(s, set);
	return s[i] ? (char *)s + i : NULL;
}
#define VF_MORE_STRINGS
static int vf_low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b)
{
	VF_NN(a);
	VF_NN(b);
	for (size_t i = 0; i < VF_STRLIM; i++) {
		int x = vf_low((unsigned char)a[i]), y = vf_low((unsigned char)b[i]);
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
	VF_TOOLONG();
	return 0;
}
size_t strnlen(const char *s, size_t n)
{
	for (size_t i = 0; i < VF_STRLIM; i++) if (i >= n || !s[i]) return i;
	VF_TOOLONG();
	return VF_STRLIM;
}
char *strncpy(char *d, const char *s, size_t n)
{
	VF_NN(d);
	VF_NN(s);
	int end = 0;
	for (size_t i = 0; i < n; i++) {
		if (!end && !s[i]) end = 1;
		d[i] = end ? '\0' : s[i];
	}
	return d;
}
char *strncat(char *d, const char *s, size_t n)
{
	size_t k = strlen(d);
	for (size_t i = 0; i < VF_STRLIM; i++) {
		if (i >= n || !s[i]) { d[k + i] = '\0'; return d; }
		d[k + i] = s[i];
	}
	VF_TOOLONG();
	return d;
}
char *stpcpy(char *d, const char *s)
{
	VF_NN(d);
	VF_NN(s);
	for (size_t i = 0; i < VF_STRLIM; i++) {
		d[i] = s[i];
		if (!s[i]) return d + i;
	}
	VF_TOOLONG();
	return d;
}
char *strsep(char **sp, const char *d)
{
	char *s = *sp;
	if (!s) return NULL;
	size_t i = 0;
	while (s[i] && !vf_in(s[i], d)) i++;
	if (s[i]) { s[i] = '\0'; *sp = s + i + 1; } else *sp = NULL;
	return s;
}
static char *vf_tokp;
char *strtok_r(char *s, const char *d, char **save)
{
	if (!s) s = *save;
	if (!s) return NULL;
	/* one pass with a concrete index: 0 before the token, 1 in it, 2 behind */
	int st = 0;
	size_t from = 0, to = 0;
	for (size_t i = 0; i < VF_STRLIM; i++) {
		char c = s[i];
		if (st == 0) { if (!c) { *save = s + i; return NULL; } if (!vf_in(c, d)) { st = 1; from = i; } }
		else if (!c) { *save = s + i; return s + from; }
		else if (vf_in(c, d)) { to = i; st = 2; break; }
	}
	if (st != 2) VF_TOOLONG();
	s[to] = '\0';
	*save = s + to + 1;
	return s + from;
}
char *strtok(char *s, const char *d) { return strtok_r(s, d, &vf_tokp); }

void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	/* only arrays of pointers are sorted in this code base */
	__CPROVER_assert(sz == sizeof(void *), "B:qsort element size");
	void **a = base;
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0; j--) {
			if (cmp(&a[j - 1], &a[j]) <= 0) break;
			void *t = a[j]; a[j] = a[j - 1]; a[j - 1] = t;
		}
}

char *__xpg_basename(char *path)
{
	static char dot[] = ".";
	if (!path || !*path) return dot;
	size_t n = strlen(path);
	while (n > 1 && path[n - 1] == '/') path[--n] = '\0';
	if (n == 1 && path[0] == '/') return path;
	size_t i = n;
	while (i > 0 && path[i - 1] != '/') i--;
	return path + i;
}
char *basename(const char *path)
{
	char *r = strrchr(path, '/');
	return r ? r + 1 : (char *)path;
}

/* ---- formatted input: literals, %d and %n ---------------------------------- */
int vsscanf(const char *s, const char *f, va_list ap)
{
	int got = 0;
	size_t i = 0;
	for (size_t j = 0; f[j]; j++) {
		if (f[j] != '%') {
			__CPROVER_assert(f[j] != ' ', "B:blank in a scanf format");
			if (s[i] != f[j]) return got == 0 && !s[i] ? -1 : got;
			i++;
			continue;
		}
		j++;
		if (f[j] == 'n') { *va_arg(ap, int *) = (int)i; continue; }
		__CPROVER_assert(f[j] == 'd', "B:unmodelled scanf conversion");
		for (size_t k = 0; k < VF_STRLIM && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')); k++) i++;
		if (!s[i]) return got == 0 ? -1 : got;
		int neg = s[i] == '-';
		if (s[i] == '-' || s[i] == '+') i++;
		if (s[i] < '0' || s[i] > '9') return got;
		int v = 0;
		for (size_t k = 0; k < VF_STRLIM; k++) {
			if (s[i] < '0' || s[i] > '9') break;
			__CPROVER_assert(v <= 100000000, "B:number too long for the scanf model");
			v = v * 10 + (s[i] - '0');
			i++;
		}
		*va_arg(ap, int *) = neg ? -v : v;
		got++;
	}
	return got;
}
int sscanf(const char *s, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vsscanf(s, f, ap);
	va_end(ap);
	return r;
}
int __isoc99_sscanf(const char *s, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vsscanf(s, f, ap);
	va_end(ap);
	return r;
}
/* (the headers rename sscanf, strtol and strtoul to their __isoc23 forms) */
static unsigned long vf_strto(const char *s, char **end, int base)
{
	__CPROVER_assert(base == 10, "B:base of a number");
	VF_NN(s);
	size_t i = 0, from;
	for (size_t k = 0; k < VF_STRLIM && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')); k++) i++;
	int neg = s[i] == '-';
	if (s[i] == '-' || s[i] == '+') i++;
	from = i;
	unsigned long v = 0;
	for (size_t k = 0; k < VF_STRLIM; k++) {
		if (s[i] < '0' || s[i] > '9') break;
		__CPROVER_assert(v <= 100000000, "B:number too long for the strtol model");
		v = v * 10 + (unsigned long)(s[i] - '0');
		i++;
	}
	if (end) *end = (char *)s + (i == from ? 0 : i);
	return neg ? -v : v;
}
long strtol(const char *s, char **end, int base) { return (long)vf_strto(s, end, base); }
unsigned long strtoul(const char *s, char **end, int base) { return vf_strto(s, end, base); }
int atoi(const char *s) { return (int)vf_strto(s, NULL, 10); }
/* character classes of the C locale */
#include "ctypetab.h"
const unsigned short **__ctype_b_loc(void) { static const unsigned short *p = vf_ctype_b + 128; return &p; }
const int **__ctype_tolower_loc(void) { static const int *p = vf_ctype_low + 128; return &p; }
const int **__ctype_toupper_loc(void) { static const int *p = vf_ctype_up + 128; return &p; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
/* ---- formatted output --------------------------------------------------- */
struct vf_sink { char *buf; unsigned cap; unsigned len; };   /* buf NULL: the cells of standard output */
static void vf_put(struct vf_sink *k, char c)
{
	if (k->len < k->cap) { if (k->buf) k->buf[k->len] = c; else vf_out[k->len] = (unsigned char)c; }
	else __CPROVER_assert(0, "B:formatted output longer than its buffer");
	k->len++;
}
static void vf_num(struct vf_sink *k, unsigned long v, unsigned base, int width, char pad, int neg)
{
	if (!k->buf && !neg) {
		__CPROVER_assert(k->len < k->cap, "B:formatted output longer than its buffer");
		vf_out[k->len] = VF_NUMSPEC(base, width, pad);
		vf_out_num[k->len++] = (unsigned)v;
		return;
	}
	char tmp[24];
	int n = 0;
	if (v == 0) tmp[n++] = '0';
	while (v) { unsigned d = (unsigned)(v % base); tmp[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v /= base; }
	if (neg && pad == '0') { vf_put(k, '-'); }
	else if (neg) tmp[n++] = '-';
	for (int i = n + (neg && pad == '0'); i < width; i++) vf_put(k, pad);
	while (n > 0) vf_put(k, tmp[--n]);
}
static void vf_vfmt(struct vf_sink *k, const char *f, va_list ap)
{
	for (size_t i = 0; f[i]; i++) {
		if (f[i] != '%') { vf_put(k, f[i]); continue; }
		i++;
		char pad = ' ';
		int width = 0, lng = 0, prec = -1, left = 0;
		while (f[i] == '0' || f[i] == '-') { if (f[i] == '0') pad = '0'; else left = 1; i++; }
		if (f[i] == '*') { width = va_arg(ap, int); i++; }
		while (f[i] >= '0' && f[i] <= '9') { width = width * 10 + (f[i] - '0'); i++; }
		if (f[i] == '.') {
			i++; prec = 0;
			if (f[i] == '*') { prec = va_arg(ap, int); i++; }
			while (f[i] >= '0' && f[i] <= '9') { prec = prec * 10 + (f[i] - '0'); i++; }
		}
		while (f[i] == 'l' || f[i] == 'z') { lng = 1; i++; }
		switch (f[i]) {
		case '%': vf_put(k, '%'); break;
		case 'c': vf_put(k, (char)va_arg(ap, int)); break;
		case 's': {
			const char *s = va_arg(ap, const char *);
			size_t n = 0;
			for (; n < VF_STRLIM; n++) {
				if (!s[n] || (prec >= 0 && n >= (size_t)prec)) break;
				vf_put(k, s[n]);
			}
			if (n == VF_STRLIM) VF_TOOLONG();
			(void)left;
			break; }
		case 'u': vf_num(k, lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), 10, width, pad, 0); break;
		case 'x': vf_num(k, lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), 16, prec > width ? prec : width, prec >= 0 ? '0' : pad, 0); break;
		case 'd': case 'i': {
			long v = lng ? va_arg(ap, long) : va_arg(ap, int);
			vf_num(k, v < 0 ? (unsigned long)-v : (unsigned long)v, 10, width, pad, v < 0);
			break; }
		default: __CPROVER_assert(0, "B:unmodelled conversion"); 
		}
	}
}
int vprintf(const char *f, va_list ap)
{
	struct vf_sink k = { 0, VF_OUT_MAX, vf_out_len };
	vf_vfmt(&k, f, ap);
	unsigned n = k.len - vf_out_len;
	vf_out_len = k.len;
	return (int)n;
}
int printf(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int n = vprintf(f, ap);
	va_end(ap);
	return n;
}
int puts(const char *s) { return printf("%s\n", s); }
int putchar(int c) { return printf("%c", c); }
int vfprintf(FILE *o, const char *f, va_list ap) { return o == stdout ? vprintf(f, ap) : 0; }
int fprintf(FILE *o, const char *f, ...)
{
	if (o != stdout) return 0;
	va_list ap;
	va_start(ap, f);
	int n = vprintf(f, ap);
	va_end(ap);
	return n;
}
int fputs(const char *s, FILE *o) { return o == stdout ? printf("%s", s) : 0; }
int fputc(int c, FILE *o) { return o == stdout ? printf("%c", c) : 0; }
int putc(int c, FILE *o) { return fputc(c, o); }
int fflush(FILE *o) { return 0; }
int vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
	char tmp[VF_OUT_MAX];
	struct vf_sink k = { tmp, VF_OUT_MAX, 0 };
	vf_vfmt(&k, f, ap);
	for (unsigned i = 0; i < n; i++) {
		if (i == k.len || i + 1 == n) { b[i] = '\0'; break; }
		b[i] = tmp[i];
	}
	return (int)k.len;
}
int snprintf(char *b, size_t n, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
#ifndef VF_ASPMAX
#define VF_ASPMAX (2 * VF_STRMAX)
#endif
static int vf_real_asprintf(char **out, const char *f, va_list ap, unsigned max)
{
	char *r = malloc(max);
	struct vf_sink k = { r, max - 1, 0 };
	vf_vfmt(&k, f, ap);
	r[k.len] = '\0';
	*out = r;
	return (int)k.len;
}
int vasprintf(char **out, const char *f, va_list ap)
{
#ifdef VF_REAL_MESSAGES
	return vf_real_asprintf(out, f, ap, VF_OUT_MAX);
#else
	/* message text is not part of the property: any fixed text will do */
	char *r = malloc(2);
	r[0] = 'm';
	r[1] = '\0';
	*out = r;
	return 1;
#endif
}
int asprintf(char **out, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vf_real_asprintf(out, f, ap, VF_ASPMAX);
	va_end(ap);
	return r;
}
