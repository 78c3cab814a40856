/* print_error (error.c): the diagnostic as a stream of characters.
 * FILE ":" NUMBER ": " message "\n" text of the line "\n" [blanks "^" ... "\n"] { "\n" }
 * for a diagnostic about a line, message "\n" { "\n" } for another. */
#include <stdarg.h>
#include <string.h>
char b[LINE];
static char file[4];
static const char *line, *bad;
static int line_num, X;
int len, last, col, at, colat[LINE + 1];
enum { S_FILE, S_C1, S_NUM, S_C2, S_SP, S_MSG, S_TEXT, S_MARK, S_ARROW, S_END };
static int st, n_msg;
int n_text, n_sp;
static _Bool wrong_head, wrong_text, wrong_mark, wrong_other;
/* the last character of the line that has to be shown */
static _Bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == EOF; }
static void out(char c)
{
	switch (st) {
	case S_FILE: wrong_head = 1; break;
	case S_C1: if (c == ':') st = S_NUM; else wrong_head = 1; break;
	case S_NUM: wrong_head = 1; break;
	case S_C2: if (c == ':') st = S_SP; else wrong_head = 1; break;
	case S_SP: if (c == ' ') st = S_MSG; else wrong_head = 1; break;
	case S_MSG:
		if (c == '\n') { if (n_msg < 1) wrong_other = 1; st = line ? S_TEXT : S_END; }
		else n_msg = 1;
		break;
	case S_TEXT:
		/* text X of the line, and where the text ends */
		if (c == '\n' && (n_text > last || n_text >= LINE - 1)) {
			if (n_text <= last || n_text > 0 && n_text <= LINE && (b[n_text - 1] == ' ' || b[n_text - 1] == '\t' || b[n_text - 1] == '\n')) wrong_text = 1;
			st = bad ? S_MARK : S_END;
		} else {
			if (n_text >= len || n_text == X && c != b[X]) wrong_text = 1;
			n_text++;
		}
		break;
	case S_MARK:
		if (c == ' ') n_sp++;
		else {
			if (c != '^' || n_sp != col) wrong_mark = 1;
			st = S_ARROW;
		}
		break;
	case S_ARROW: if (c == '\n') st = S_END; break;
	case S_END: if (c != '\n') wrong_other = 1;
	}
}
static void out_str(const char *s, int max)
{
	if (s == file) {
		if (st == S_FILE) st = S_C1;
		else if (st == S_MSG) n_msg = 1;
		else wrong_other = 1;
		return;
	}
	for (int i = 0; i < LINE && i < max && s[i]; i++)
		out(s[i]);
}
static void out_num(int v)
{
	if (st == S_NUM && v == line_num) st = S_C2;
	else if (st != S_MSG) wrong_head = 1;
}
int putchar(int c) { out(c); return (unsigned char)c; }
int putc(int c, FILE *f) { return putchar(c); }
int fputc(int c, FILE *f) { return putchar(c); }
int puts(const char *s) { out_str(s, LINE); out('\n'); return 1; }
int fputs(const char *s, FILE *f) { out_str(s, LINE); return 1; }
__CPROVER_size_t fwrite(const void *p, __CPROVER_size_t size, __CPROVER_size_t n, FILE *f)
{
	for (__CPROVER_size_t i = 0; i < size * n; i++)
		out(((const char *)p)[i]);
	return n;
}
static void format(const char *f, va_list ap)
{
	for (int i = 0; i < 100 && f[i]; i++) {
		if (f[i] != '%') { out(f[i]); continue; }
		i++;
		int width = 0, prec = LINE;
		if (f[i] == '-') i++;
		if (f[i] == '*') { width = va_arg(ap, int); i++; }
		if (f[i] == '.' && f[i + 1] == '*') { prec = va_arg(ap, int); i += 2; }
		if (f[i] == '%') out('%');
		else if (f[i] == 'i' || f[i] == 'd' || f[i] == 'u') out_num(va_arg(ap, int));
		else if (f[i] == 's' || f[i] == 'c') {
			char one[2] = {0, 0};
			const char *s = f[i] == 's' ? va_arg(ap, const char *) : one;
			if (f[i] == 'c') one[0] = va_arg(ap, int);
			if (width) {
				/* padding of an empty or one-character string */
				int n = s[0] == 0 ? 0 : 1;
				__CPROVER_assert(s[0] == 0 || s[1] == 0, "model: padding of a short string only");
				if (st == S_MARK) n_sp += width > n ? width - n : 0;
				else
					for (int k = 0; k < 16; k++)
						if (k < width - n)
							out(' ');
			}
			out_str(s, prec);
		} else wrong_other = 1;
	}
}
int printf(const char *f, ...) { va_list ap; va_start(ap, f); format(f, ap); va_end(ap); return 1; }
int fprintf(FILE *g, const char *f, ...) { va_list ap; va_start(ap, f); format(f, ap); va_end(ap); return 1; }
int fflush(FILE *f) { return 0; }

#ifndef NOCUT
/* ------------------------------------------------------------ invariants */
static int phase[16];
void vp_world(int loop, int assume)
{
	INV("nothing wrong so far", !wrong_head && !wrong_text && !wrong_mark && !wrong_other)
	INV("one part of the diagnostic", st == phase[loop] && (st == S_TEXT || st == S_MARK) && line)
	INV("progress", n_text >= 0 && n_text <= len && n_sp >= 0 && n_sp <= (st == S_MARK ? col : 0))
}
void vp_world_havoc(int loop, int mask)
{
	int x, y;
	if (st == S_TEXT) n_text = x;
	if (st == S_MARK) n_sp = y;
}
static int before;
void vp_variant(int loop, int mask, int check)
{
	int now = n_text + n_sp;
	if (!check) before = now;
	else __CPROVER_assert(now > before, "termination: every iteration prints");
}
void vp_enter(int loop, int mask) { phase[loop] = st; }
void vp_step(int loop, int mask) {}
#endif
/* a position at or after the end of the text, and one before the marker */
_Bool vp_tail(const char *p) { return __CPROVER_same_object(p, b) && p >= b + last && p < b + len; }
_Bool vp_head(const char *p) { return __CPROVER_same_object(p, b) && p >= b && p <= b + at; }
const char *vp_tailp(void) { int o; __CPROVER_assume(o >= last && o < len); return b + o; }
const char *vp_headp(void) { int o; __CPROVER_assume(o >= 0 && o <= at); return b + o; }
/* the column of a position */
int vp_col(const char *p) { return vp_head(p) ? colat[p - b] : -1; }
int vp_printed(void) { return st == S_TEXT ? n_text : n_sp; }
_Bool vp_tab(int x, const char *p) { return x >= 0 && x <= 8 && ((x - vp_col(p)) & 7) == 0; }

void harness(void)
{
	char v[LINE];
	int code, n, x, a;
	_Bool has = HAS, mark;
	line_num = n; X = x;
	__CPROVER_assume(sp_printable(code) && X >= 0 && X < LINE);
	for (int i = 0; i < LINE; i++)
		b[i] = v[i];
	__CPROVER_assume(len >= 0);
	int l, la;
	len = l; last = la;
	/* a line with something on it */
	__CPROVER_assume(len >= 1 && len < LINE && la >= 0 && la < len);
	for (int i = 0; i < LINE; i++) {
		__CPROVER_assume(i >= len || b[i] != 0);
		__CPROVER_assume(i >= len || b[i] != '\n' || i == len - 1);
		__CPROVER_assume(i != len || b[i] == 0);
		__CPROVER_assume(i <= la || i >= len || blank(b[i]));
		__CPROVER_assume(i != la || !blank(b[i]));
	}
	line = has ? b : NULL;
	__CPROVER_assume(a >= 0 && a <= la);
	at = a;
	bad = has && mark ? b + at : NULL;
	colat[0] = 0;
	for (int i = 0; i < LINE; i++)
		colat[i + 1] = b[i] == '\t' ? (colat[i] | 7) + 1 : colat[i] + 1;
	col = colat[at];
	st = has ? S_FILE : S_MSG;
	n_msg = n_text = n_sp = 0;
	wrong_head = wrong_text = wrong_mark = wrong_other = 0;
	print_error(line, code, bad, file, line_num);
	__CPROVER_assert(!wrong_head, "[C12] a diagnostic begins with the file name and the line's number");
	__CPROVER_assert(st == S_END && !wrong_other, "[C11,C12] a diagnostic is complete");
	__CPROVER_assert(!wrong_text, "[C12] the diagnostic shows the line without trailing blanks");
	__CPROVER_assert(!wrong_mark, "[C12] the marker is under the offending character, tabs expanded to multiples of eight");
	__CPROVER_assert(X >= len || b[X] == v[X], "[C12,C13] print_error leaves the line unchanged");
	__CPROVER_assert(0, "REACH end");
}
