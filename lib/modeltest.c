/* Compares the libc models of models.c with the real libc on short strings. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <libgen.h>
#include <ctype.h>
#undef basename
static int bad;
#define __CPROVER_assume(c) ((void)0)
#define __CPROVER_assert(c, d) ((void)((c) || (bad++, 0)))
static unsigned char nondet_uchar(void) { return 0; }
#undef strdup
#undef strndup
#undef strchr
#define M(x) model_##x
#define strdup model_strdup
#define strndup model_strndup
#define strlen model_strlen
#define strcmp model_strcmp
#define strncmp model_strncmp
#define strcasecmp model_strcasecmp
#define strcat model_strcat
#define strcpy model_strcpy
#define strncpy model_strncpy
#define strncat model_strncat
#define strchr model_strchr
#define strrchr model_strrchr
#define strstr model_strstr
#define strspn model_strspn
#define strcspn model_strcspn
#define strpbrk model_strpbrk
#define strtok_r model_strtok_r
#define strtok model_strtok
#define strsep model_strsep
#define stpcpy model_stpcpy
#define strnlen model_strnlen
#define memcmp model_memcmp
#define memchr model_memchr
#define qsort model_qsort
#define __xpg_basename model_xpg_basename
#define basename model_basename
#define main model_main
#define free model_free
#define vprintf model_vprintf
#define printf model_printf
#define puts model_puts
#define putchar model_putchar
#define vfprintf model_vfprintf
#define fprintf model_fprintf
#define fputs model_fputs
#define fputc model_fputc
#define putc model_putc
#define fflush model_fflush
#define vsnprintf model_vsnprintf
#define snprintf model_snprintf
#define vasprintf model_vasprintf
#define asprintf model_asprintf
#define vsscanf model_vsscanf
#define sscanf model_sscanf
#define __isoc99_sscanf model_isoc99_sscanf
#define strtol model_strtol
#define strtoul model_strtoul
#define atoi model_atoi
#define __ctype_b_loc model_ctype_b_loc
#define __ctype_tolower_loc model_ctype_tolower_loc
#define __ctype_toupper_loc model_ctype_toupper_loc
#define tolower model_tolower
#define toupper model_toupper
#define VF_REAL_MESSAGES
#define VF_STRMAX 32
#define VF_ASPMAX 600
#include "models.c"
#undef strdup
#undef strndup
#undef strlen
#undef strcmp
#undef strncmp
#undef strcasecmp
#undef strcat
#undef strcpy
#undef strncpy
#undef strncat
#undef strchr
#undef strrchr
#undef strstr
#undef strspn
#undef strcspn
#undef strpbrk
#undef strtok_r
#undef strtok
#undef strsep
#undef stpcpy
#undef strnlen
#undef memcmp
#undef memchr
#undef qsort
#undef __xpg_basename
#undef basename
#undef main
#undef free
#undef vprintf
#undef printf
#undef puts
#undef putchar
#undef vfprintf
#undef fprintf
#undef fputs
#undef fputc
#undef putc
#undef fflush
#undef vsnprintf
#undef snprintf
#undef vasprintf
#undef asprintf
#undef vsscanf
#undef sscanf
#undef __isoc99_sscanf
#undef strtol
#undef strtoul
#undef atoi
#undef __ctype_b_loc
#undef __ctype_tolower_loc
#undef __ctype_toupper_loc
#undef tolower
#undef toupper
extern char *__xpg_basename(char *);
void vf_main(void) { }
static int sgn(int x) { return (x > 0) - (x < 0); }
static long n, fails;
static void chk(int c, const char *what) { n++; if (!c && fails++ < 10) printf("model differs: %s\n", what); }
static int icmp(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
int main(void)
{
	static char S[2000][6];
	int k = 0;
	const char *al = "ab:/. _\xc3";
	for (int len = 0; len <= 3; len++) {
		int tot = 1;
		for (int i = 0; i < len; i++) tot *= 8;
		for (int v = 0; v < tot; v++) { int w = v; for (int i = 0; i < len; i++) { S[k][i] = al[w % 8]; w /= 8; } S[k][len] = 0; k++; }
	}
	for (int i = 0; i < k; i++) {
		char *s = S[i], *d;
		chk(M(strlen)(s) == strlen(s), "strlen");
		d = M(strdup)(s); chk(!strcmp(d, s), "strdup");
		for (int c = 0; c < 8; c++) { chk(M(strchr)(s, al[c]) == strchr(s, al[c]), "strchr"); chk(M(strrchr)(s, al[c]) == strrchr(s, al[c]), "strrchr"); }
		chk(M(strchr)(s, 0) == strchr(s, 0), "strchr 0");
		char a[8], b[8];
		strcpy(a, s); strcpy(b, s);
		chk(!strcmp(M(xpg_basename)(a), __xpg_basename(b)), "basename");
		for (int j = 0; j < k; j++) {
			char *t = S[j];
			chk(sgn(M(strcmp)(s, t)) == sgn(strcmp(s, t)), "strcmp");
			chk(M(strstr)(s, t) == strstr(s, t), "strstr");
			chk(M(strspn)(s, t) == strspn(s, t) && M(strcspn)(s, t) == strcspn(s, t) && M(strpbrk)(s, t) == strpbrk(s, t), "strspn");
			for (int q = 0; q < 4; q++) chk(sgn(M(strncmp)(s, t, q)) == sgn(strncmp(s, t, q)), "strncmp");
			char x[16], y[16];
			strcpy(x, s); strcpy(y, s);
			M(strcat)(x, t); strcat(y, t); chk(!strcmp(x, y), "strcat");
			M(strcpy)(x, t); strcpy(y, t); chk(!strcmp(x, y), "strcpy");
#ifdef VF_MORE_STRINGS
			chk(sgn(M(strcasecmp)(s, t)) == sgn(strcasecmp(s, t)), "strcasecmp");
			for (int q = 0; q < 5; q++) {
				memset(x, 'z', 16); memset(y, 'z', 16);
				M(strncpy)(x, t, q); strncpy(y, t, q); chk(!memcmp(x, y, 16), "strncpy");
				strcpy(x, s); strcpy(y, s); M(strncat)(x, t, q); strncat(y, t, q); chk(!strcmp(x, y), "strncat");
			}
			chk(M(strnlen)(s, 2) == strnlen(s, 2), "strnlen");
			{ char *p, *q, *u, *v; strcpy(x, s); strcpy(y, s); p = x; q = y;
			  do { u = M(strsep)(&p, t); v = strsep(&q, t); chk(!u == !v && (!u || !strcmp(u, v)), "strsep"); } while (u && v); }
#endif
			if (*t) {
				char *u, *v, *sv1, *sv2;
				strcpy(x, s); strcpy(y, s);
				u = M(strtok_r)(x, t, &sv1); v = strtok_r(y, t, &sv2);
				for (;;) { chk(!u == !v && (!u || !strcmp(u, v)), "strtok_r"); if (!u || !v) break; u = M(strtok_r)(NULL, t, &sv1); v = strtok_r(NULL, t, &sv2); }
			}
		}
		for (unsigned q = 0; q < 5; q++) { char *u = M(strndup)(s, q), *v = strndup(s, q); chk(!strcmp(u, v), "strndup"); free(v); }
		char *r, *z;
		static const char *F[] = { "%s|%10d|%3u|%%", "x%03u%s%c", "%-5s", "%02x" };
		(void)F;
		M(asprintf)(&r, "%s|%10d|%3u|%%%c", s, i, i * 7, 'q'); asprintf(&z, "%s|%10d|%3u|%%%c", s, i, i * 7, 'q'); chk(!strcmp(r, z), "asprintf"); free(r); free(z);
		M(asprintf)(&r, "%03u:%*u-%.2s%lu", i, i % 9, i, s, (unsigned long)i); asprintf(&z, "%03u:%*u-%.2s%lu", i, i % 9, i, s, (unsigned long)i); chk(!strcmp(r, z), "asprintf 2"); free(r); free(z);
		M(snprintf)(a, 8, "%d%s", -i, s); snprintf(b, 8, "%d%s", -i, s); chk(!strcmp(a, b), "snprintf");
	}
	{
		static const char *const sc[] = { "", "$", "$1", "$12a", "$ 3", "$-4x", "$+", "$x", "a$1", "$\t 07_", "$ " };
		for (unsigned i = 0; i < sizeof sc / sizeof *sc; i++) {
			int a = -7, b = -7, c = -7, d = -7;
			int r1 = M(sscanf)(sc[i], "$%d%n", &a, &b), r2 = sscanf(sc[i], "$%d%n", &c, &d);
			chk(r1 == r2 && a == c && b == d, "sscanf");
			if (!sc[i][0]) continue;
			char *e1, *e2;
			chk(M(strtol)(sc[i] + 1, &e1, 10) == strtol(sc[i] + 1, &e2, 10) && e1 == e2, "strtol");
			chk(M(strtoul)(sc[i] + 1, &e1, 10) == strtoul(sc[i] + 1, &e2, 10) && e1 == e2, "strtoul");
			chk(M(atoi)(sc[i] + 1) == atoi(sc[i] + 1), "atoi");
		}
	}
	for (int c = -128; c < 256; c++) chk((*M(ctype_b_loc)())[c] == (*__ctype_b_loc())[c] && (*M(ctype_tolower_loc)())[c] == (*__ctype_tolower_loc())[c] && (*M(ctype_toupper_loc)())[c] == (*__ctype_toupper_loc())[c], "ctype");
	for (int c = 0; c < 256; c++) chk(M(tolower)(c) == tolower(c) && M(toupper)(c) == toupper(c), "tolower");
	char *p[40], *q[40];
	for (int i = 0; i < 40; i++) p[i] = q[i] = S[(i * 137 + 11) % k];
	M(qsort)(p, 40, sizeof *p, icmp); qsort(q, 40, sizeof *q, icmp);
	for (int i = 0; i < 40; i++) chk(!strcmp(p[i], q[i]), "qsort");
	chk(!bad, "bound assertion inside a model");
	printf("%ld comparisons, %ld differences\n", n, fails);
	return fails != 0;
}
