/* Runs the repository's real lexer (flex output of src/lex.l) over one file and
 * prints the token stream as C initialisers. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tree.h"
#include "parse.h"
struct vf_loc { unsigned int first_line, first_column, last_line, last_column; };
typedef union { char *string; char symbol; void *p; int i; } vf_val;
extern int yylex(void *val, void *loc, void *scanner);
extern int yylex_init(void **);
extern int yylex_destroy(void *);
extern void yyrestart(FILE *, void *);
extern char *yyget_text(void *);
int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "r");
	void *s;
	YYSTYPE v;
	struct vf_loc l;
	if (!f) return 2;
	yylex_init(&s);
	yyrestart(f, s);
	for (;;) {
		memset(&v, 0, sizeof v);
		memset(&l, 0, sizeof l);
		int k = yylex(&v, &l, s);
		if (k <= 0) break;
		printf("%d %u %u %s\n", k, l.first_line, l.last_line, yyget_text(s));
	}
	return 0;
}
