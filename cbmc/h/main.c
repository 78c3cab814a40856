/* main and everything it does with a line: main.c, parser.c, generator.c,
 * opcode.c and assemble.c are the real code.  lex_line, the symbol table, the
 * list of forward references and stdio are their contracts.
 *
 * The specification is executed beside the code.  k_*: what the statements
 * read so far mean; f_*, g_*: what the code has done.  Everything that ranges
 * over all addresses, labels or references is projected on one arbitrary
 * element: address Z of the binary, label 1 (g_def, g_val), reference number J. */
#include <argp.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
extern int gaia_main(int argc, char **argv);
#ifdef NOCUT
enum { CUT = 0 };
#else
enum { CUT = 1 };
#endif
#define NREF 3
#define MAXLINES 0x10000000L

#ifndef TAGGED
#ifdef FIRST
/* second run, after a failure: beyond the first divergence nothing is claimed */
#define TAGGED(c, t) { __CPROVER_assert(c, t); __CPROVER_assume(c); }
#else
#define TAGGED(c, t) __CPROVER_assert(c, t)
#endif
#endif

/* ------------------------------------------------------------------ files */
static FILE in_f, out_f;
static char src_name[2], out_name[2];
static char *out_want;
static int in_open, out_open, out_was, in_was;        /* 0 not yet, 1 open, 2 closed */
static _Bool o_err, o_lost, k_readerr, k_eof;
static long f_pos, f_len, Z;
static int f_byte;
static _Bool f_w, o_seeked;
/* the current line */
long vp_line;
static _Bool k_mid, k_fresh, k_chunk, k_read1, k_read2;
_Bool vp_end, vp_code;
static char *k_buf;

/* ------------------------------------------------------- the specification */
enum { R_NONE, R_LEX, R_SYNTAX, R_REDEF, R_RANGE, R_MODE, R_VALUE, R_BRVALUE, R_OFFSET, R_UNDEF, R_FWDMODE, R_LONG, R_LABELPC };
static int k_fail;
static _Bool k_at_redef, k_at_undef;
static const char *k_tok_syntax, *k_tok_redef, *k_tok_operand;
static _Bool k_done, k_oom, k_io;
int vp_pc, vp_total;
static int k_count, k_fwd;
static long k_len;
static _Bool k_def; static int k_val;
enum { P_NONE, P_OPC, P_LIT, P_LABEL, P_BRANCH, P_JUMP, P_REF };
static int k_cov, k_byte, k_role, k_ref;
static int J;
static _Bool kj_set, kj_key;
static int kj_pc, kj_line, kj_col, kj_m;
/* the statement in work */
static int s_m, s_isfwd, s_added, s_fcol, s_did, s_oid, s_pc;
static int g_count, g_refs;
static _Bool k_pend;
static _Bool s_haslabel, s_defs;
/* other labels than g_key, within one statement */
static _Bool o_def[4]; static int o_val[4];
/* diagnostics and stdout */
static int d_n, p_at; static _Bool p_bad;

/* ------------------------------------------------------------ the objects */
static struct Lexer *v_lexer; static struct Token *v_tk; static struct Instruction *v_instr;
static struct SymbolTable *v_symtab; static struct Unresolved *v_unres;
static struct Token q0, q1, q2, q3, q4, q5, q6, q7, *seq[MAX_TOKENS];
static char s0[2], s1[2], s2[2], s3[2], s4[2], s5[2], s6[2], s7[2];
#define EACH(F) F(0, q0, s0) F(1, q1, s1) F(2, q2, s2) F(3, q3, s3) F(4, q4, s4) F(5, q5, s5) F(6, q6, s6) F(7, q7, s7)
#ifdef NOCUT
static struct ForwardRef *refs_arr[NREF + 1];
static struct ForwardRef ref_o[NREF + 1]; static struct Instruction ref_i[NREF + 1]; static char ref_l[NREF + 1][2], ref_s[NREF + 1][LINE];
static int n_ref;
#else
static struct ForwardRef **refs_arr;
/* [0]: the one the statement makes, [1]: the one being resolved */
static struct ForwardRef ref_o[2]; static struct Instruction ref_i[2]; static char ref_l[2][2], ref_s[2][LINE];
static int n_ref;
#endif
int vp_i;

static int iabs(void) { int x; return x; }
static _Bool coin(void) { _Bool x; return x; }

/* ------------------------------------------------------------ allocations */
struct Lexer *init_lexer(const char *file_name)
{
	TAGGED(file_name == src_name, "[C12] the lexer is given the source file's name");
	struct Lexer *l = coin() ? malloc(sizeof *l) : NULL;
	if (!l) { k_oom = 1; return NULL; }
	l->sequence = seq;
	l->file_name = file_name;
	v_lexer = l;
	return l;
}
struct Token *init_token(void)
{
	struct Token *t = coin() ? malloc(sizeof *t) : NULL;
	if (!t) k_oom = 1;
	return v_tk = t;
}
struct Instruction *init_instruction(void)
{
	struct Instruction *t = coin() ? malloc(sizeof *t) : NULL;
	if (!t) { k_oom = 1; return t; }
	t->mnemonic = NULL_MNEMONIC; t->addr_bitfield = t->addr_bitflag = t->opcode = 0;
	return v_instr = t;
}
struct SymbolTable *init_symbol_table(void)
{
	struct SymbolTable *t = coin() ? malloc(sizeof *t) : NULL;
	if (!t) { k_oom = 1; return t; }
	t->count = 0;
	return v_symtab = t;
}
struct Unresolved *init_unresolved(void)
{
	struct Unresolved *t = coin() ? malloc(sizeof *t) : NULL;
	if (!t) { k_oom = 1; return t; }
	t->curr = 0;
#ifndef NOCUT
	size_t n;
	__CPROVER_assume(n >= (MAXLINES + 1) * sizeof *refs_arr && n < 1L << 40);
	refs_arr = malloc(n);
	__CPROVER_assume(refs_arr != NULL);
#endif
	t->refs = refs_arr;
	return v_unres = t;
}
#define DESTROY(f, T) void f(T *p) { if (p) free(p); }
DESTROY(destroy_lexer, struct Lexer)
DESTROY(destroy_token, struct Token)
DESTROY(destroy_instruction, struct Instruction)
DESTROY(destroy_symbol_table, struct SymbolTable)
DESTROY(destroy_unresolved, struct Unresolved)
void reset_instruction(struct Instruction *i) { i->mnemonic = NULL_MNEMONIC; i->addr_bitfield = i->addr_bitflag = i->opcode = 0; }

/* ------------------------------------------------------------------ argp */
static void end_ok(void);
static void at_exit(int r);
void argp_usage(const struct argp_state *s) { __CPROVER_assume(0); }
error_t argp_parse(const struct argp *a, int argc, char **argv, unsigned flags, int *arg_index, void *input)
{
	struct argp_state st;
	_Bool opt = coin(), before = coin();
	st.input = input;
	st.arg_num = 0;
	st.root_argp = a;
	out_want = NULL;
	if (opt && before) { a->parser('o', out_name, &st); out_want = out_name; }
	a->parser(ARGP_KEY_ARG, src_name, &st);
	st.arg_num++;
	if (opt && !before) { a->parser('o', out_name, &st); out_want = out_name; }
	a->parser(ARGP_KEY_END, NULL, &st);
	return 0;
}

/* ----------------------------------------------------------------- stdio */
static _Bool default_name(const char *p)
{
	return p[0] == 'a' && p[1] == '.' && p[2] == 'o' && p[3] == 'u' && p[4] == 't' && p[5] == 0;
}
FILE *fopen(const char *path, const char *mode)
{
	_Bool rd = mode[0] == 'r';
	if (rd) {
		TAGGED(path == src_name && !in_was && mode[1] != '+' && (mode[1] == 0 || mode[2] != '+'), "[C11] the source is opened for reading, once");
		in_was = 1;
		if (coin()) { k_io = 1; return NULL; }
		in_open = 1;
		return &in_f;
	}
	TAGGED(mode[0] == 'w' && !out_was && (out_want ? path == out_want : default_name(path)), "[C10,C11] the output file is created, once, under its name");
	out_was = 1;
	if (coin()) { k_io = 1; return NULL; }
	out_open = 1;
	return &out_f;
}
int fclose(FILE *f)
{
	if (f == &in_f) {
		__CPROVER_assert(in_open == 1, "[C13] fclose of an open file");
		in_open = 2;
		return coin() ? EOF : 0;
	}
	__CPROVER_assert(f == &out_f && out_open == 1, "[C13] fclose of an open file");
	out_open = 2;
	/* data still buffered may fail to be written */
	if (coin()) { o_lost = 1; return EOF; }
	return o_err && coin() ? EOF : 0;
}
int fflush(FILE *f)
{
	if (f == &out_f && coin()) { o_err = 1; return EOF; }
	return 0;
}
int ferror(FILE *f)
{
	__CPROVER_assert(f == &in_f ? in_open == 1 : f == &out_f && out_open == 1, "[C13] ferror of an open file");
	return f == &in_f ? k_readerr : o_err;
}
int feof(FILE *f) { return k_eof; }
int fseek(FILE *f, long off, int whence)
{
	__CPROVER_assert(f == &out_f && out_open == 1, "[C13] fseek of an open file");
	TAGGED(whence == SEEK_SET && off >= 0, "[C10] the output is positioned at an address");
	if (!o_seeked) {
		/* not seekable */
		o_seeked = 1;
		if (coin()) { k_io = 1; o_lost = 1; return -1; }
	} else if (coin()) {
		/* seeking writes what is buffered */
		o_err = 1;
		return -1;
	}
	f_pos = off;
	return 0;
}
void rewind(FILE *f) { fseek(f, 0, SEEK_SET); }
static void put_byte(int c)
{
	if (o_err || coin()) { o_err = 1; return; }
	if (f_pos == Z) { f_byte = c & 0xFF; f_w = 1; }
	else if (f_pos > Z && f_byte < 0) f_byte = 0;
	if (f_pos >= f_len) f_len = f_pos + 1;
	f_pos++;
}
int fputc(int c, FILE *f)
{
	__CPROVER_assert(f == &out_f && out_open == 1, "[C13] fputc to an open file");
	put_byte(c);
	return o_err ? EOF : (unsigned char)c;
}
int putc(int c, FILE *f) { return fputc(c, f); }
size_t fwrite(const void *p, size_t size, size_t n, FILE *f)
{
	__CPROVER_assert(f == &out_f && out_open == 1, "[C13] fwrite to an open file");
	for (size_t i = 0; i < size * n; i++)
		put_byte(((const unsigned char *)p)[i]);
	return n;
}
/* what the rest of the line adds */
static void tail(int c)
{
	if (c == '\n') { k_mid = 0; return; }
	k_mid = 1;
	if (vp_end) return;
	if (sp_eol(c)) vp_end = 1;
	else if (c != ' ' && c != '\t') vp_code = 1;
}
static void begin_line(void)
{
	if (!k_mid) {
		__CPROVER_assume(vp_line < MAXLINES);
		TAGGED(!vp_code && !k_pend, "[C04,C05,C11] no line is skipped");
		vp_line++; vp_end = vp_code = 0; k_fresh = 1; k_chunk = 0;
	} else
		k_fresh = 0;
}
int fgetc(FILE *f)
{
	unsigned char c;
	__CPROVER_assert(f == &in_f && in_open == 1, "[C13] fgetc from an open file");
	if (k_eof || coin()) { if (coin()) k_readerr = 1; k_eof = 1; k_mid = 0; return EOF; }
	if (!k_mid) begin_line();
	k_read1 = k_read2 = 1;
	tail(c);
	return c;
}
int getc(FILE *f) { return fgetc(f); }
char *fgets(char *s, int n, FILE *f)
{
	char c[LINE];
	int len;
	__CPROVER_assert(f == &in_f && in_open == 1, "[C13] fgets from an open file");
	__CPROVER_assert(n == LINE && __CPROVER_w_ok(s, n), "[C04,C11,C13] a line of up to 127 characters is read into a buffer that holds it");
	k_buf = NULL;
	if (k_eof || coin()) {
		k_eof = k_done = 1;
		if (coin()) {
			k_readerr = 1;
			__CPROVER_havoc_object(s);
		}
		return NULL;
	}
	begin_line();
	k_read1 = k_read2 = 1;
	__CPROVER_assume(1 <= len && len < LINE);
	_Bool nl = c[len - 1] == '\n';
	for (int i = 0; i < LINE - 1; i++)
		if (i < len) {
			__CPROVER_assume(c[i] != '\n' || i == len - 1);
			s[i] = c[i];
			if (k_fresh) { vp_end |= sp_eol(c[i]); k_pend |= !vp_end && c[i] != ' ' && c[i] != '\t'; }
			else tail((unsigned char)c[i]);
		}
	for (int i = 1; i < LINE; i++)
		if (i == len)
			s[i] = 0;
	k_mid = !nl;
	if (len < LINE - 1 && !nl) { k_eof = 1; k_mid = 0; }     /* the file ends without a newline */
	k_buf = s;
	k_chunk = k_fresh;
	return s;
}
/* success message: literal text, then the two totals */
enum { T_DEC1 = 1, T_HEX, T_DEC2 };
static const char msg[] = "Assembly successful.\n\1 (0x\2) bytes assembled.\n\3 symbols.\n";
enum { MSG1 = 20, MSGN = sizeof msg - 1 };
static void out_char(char c)
{
	if (p_at < MSGN && msg[p_at] == c && c > T_DEC2) p_at++;
	else p_bad = 1;
}
static void out_num(long v, _Bool hex, _Bool w4)
{
	int t = p_at < MSGN ? msg[p_at] : 0;
	if (t == T_DEC1 && !hex && v == vp_total || t == T_HEX && hex && w4 && v == vp_total || t == T_DEC2 && !hex && v == k_count) p_at++;
	else p_bad = 1;
}
int putchar(int c) { out_char(c); return c; }
int puts(const char *s)
{
	for (int i = 0; i < 100 && s[i]; i++)
		out_char(s[i]);
	out_char('\n');
	return 1;
}
int printf(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	for (int i = 0; i < 100 && f[i]; i++) {
		if (f[i] != '%') { out_char(f[i]); continue; }
		i++;
		_Bool w4 = 0;
		if (f[i] == '0' && f[i + 1] == '4') { w4 = 1; i += 2; }
		if (f[i] == '%') out_char('%');
		else if (f[i] == 'i' || f[i] == 'd' || f[i] == 'u') out_num(va_arg(ap, int), 0, w4);
		else if (f[i] == 'x') out_num(va_arg(ap, int), 1, w4);
		else if (f[i] == 's') {
			const char *s = va_arg(ap, const char *);
			for (int j = 0; j < 100 && s[j]; j++)
				out_char(s[j]);
		} else if (f[i] == 'c') out_char(va_arg(ap, int));
		else p_bad = 1;
	}
	va_end(ap);
	return 1;
}
void perror(const char *s) {}

/* ---------------------------------------------------------------- errors */
static int fwd_len(int col) { return col == M_REL ? 2 : 3; }
static _Bool label_known(int id, int *v);
static _Bool bad_ref(const struct ForwardRef *r)
{
	int v;
	if (!label_known(r->label[0], &v)) return 1;
	return r->operand_status == BRANCH_FORWARD_REFERENCE && (v - r->pc - 2 < -128 || v - r->pc - 2 > 127);
}
void print_error(const char *line, int error_code, const char *bad_char, const char *file_name, int line_num)
{
	d_n++;
	TAGGED(sp_printable(error_code), "[C11,C12] print_error is given an error that has a message");
	if (!line) {
		TAGGED(bad_char == NULL, "[C12,C13] no marker without a line");
		TAGGED(k_oom || k_io || k_readerr || o_err || o_lost, "[C12] a diagnostic that names no line is about a file or memory");
		TAGGED(file_name == src_name, "[C12] the diagnostic names the source file");
		return;
	}
	TAGGED(file_name == src_name, "[C12] the diagnostic names the source file");
	if (!k_done) {
		TAGGED(line == k_buf && k_chunk && line_num == vp_line, "[C12] the diagnostic is about the current line and gives its number");
		TAGGED(bad_char == NULL || bad_char == k_tok_syntax || k_at_redef && bad_char == k_tok_redef || (k_at_undef || k_fail >= R_MODE && k_fail <= R_FWDMODE) && bad_char == k_tok_operand,
			"[C12] the marker is at the offending token");
		return;
	}
#ifdef NOCUT
	_Bool ok = 0;
	for (int i = 0; i < NREF; i++)
		if (i < n_ref && line == ref_s[i])
			ok |= bad_ref(&ref_o[i]) && line_num == ref_o[i].line_num && (bad_char == NULL || bad_char == ref_o[i].operand_location);
#else
	_Bool ok = line == ref_s[1] && line_num == ref_o[1].line_num && (bad_char == NULL || bad_char == ref_o[1].operand_location);
#endif
	TAGGED(ok, "[C09,C12] the diagnostic gives the line and the operand of the reference");
}

/* ---------------------------------------------------------- symbol table */
static _Bool label_known(int id, int *v)
{
	if (id == 1) { *v = g_val; return g_def; }
	*v = o_val[id & 3];
	return o_def[id & 3];
}
int search_symbol(const struct SymbolTable *t, const char *label)
{
	int v, any;
	__CPROVER_assert(t == v_symtab && t != NULL, "[C13] search_symbol is given the symbol table");
	/* not a label of this statement: anything the table may hold */
	if (!(label[0] >= 1 && label[0] <= 3)) {
		__CPROVER_assume(any == ERROR_SYMBOL_NOT_FOUND || any >= 0 && any <= 0xFFFF);
		return any;
	}
	return label_known(label[0], &v) ? v : ERROR_SYMBOL_NOT_FOUND;
}
int insert_symbol(struct SymbolTable *t, const char *label, const int value)
{
	int id = label[0], v;
	__CPROVER_assert(t == v_symtab && t != NULL, "[C13] insert_symbol is given the symbol table");
	TAGGED(id >= 1 && id <= 3 && s_defs && s_did == id, "[C07] only the label that the line defines is inserted");
	TAGGED(!label_known(id & 3, &v), "[C06,C07] no label is inserted twice");
	if (coin()) { k_oom = 1; return ERROR_MEMORY_ALLOCATION_FAIL; }
	if (id == 1) { g_def = 1; g_val = value; }
	else { o_def[id & 3] = 1; o_val[id & 3] = value; }
	t->count++;
	g_count++;
	return SYMBOL_INSERTION_SUCCESS;
}

/* ----------------------------------------------------- forward references */
struct ForwardRef *create_forward_ref(const char *buffer, const struct Instruction *instr, const struct Token *operand,
                                      int operand_status, int pc, int line_num)
{
	int n = CUT ? 0 : n_ref;
	if (coin()) { k_oom = 1; return NULL; }
	TAGGED(buffer == k_buf, "[C12,C13] a reference is made from the current line");
	TAGGED(operand->buffer_location == k_tok_operand && operand->str[0] >= 1 && operand->str[0] <= 3, "[C09,C12,C13] a reference is made from the label operand");
	struct ForwardRef *r = &ref_o[n];
	struct Instruction *i = &ref_i[n];
	*i = *instr;
	r->instr = i;
	ref_l[n][0] = operand->str[0];
	ref_l[n][1] = 0;
	r->label = ref_l[n];
	r->source_line = ref_s[n];
	r->operand_location = ref_s[n] + (operand->buffer_location - buffer);
	r->pc = pc;
	r->line_num = line_num;
	r->operand_status = operand_status;
	return r;
}
int add_forward_ref(struct Unresolved *u, struct ForwardRef *r)
{
	int n = CUT ? 0 : n_ref;
	__CPROVER_assert(u == v_unres && u != NULL && r != NULL, "[C13] add_forward_ref is given the list");
	TAGGED(s_isfwd && !s_added, "[C09] a statement with an undefined label as its target is recorded, once, and no other");
	TAGGED(r == &ref_o[n] && r->label[0] == s_oid && r->pc == s_pc && r->line_num == vp_line &&
		r->operand_location == ref_s[n] + (k_tok_operand - k_buf), "[C08,C09,C12] the reference records its own label, address and line");
	TAGGED(r->operand_status == (s_fcol == M_REL ? BRANCH_FORWARD_REFERENCE : JUMP_FORWARD_REFERENCE) && r->instr->mnemonic == s_m &&
		r->instr->addr_bitflag == sp_bit(s_fcol), "[C01,C02,C08,C09] the reference records its own instruction");
	if (coin()) { k_oom = 1; return ERROR_MEMORY_ALLOCATION_FAIL; }
	s_added = 1;
#ifdef NOCUT
	__CPROVER_assume(n_ref < NREF);
	refs_arr[n_ref] = r;
	n_ref++;
	refs_arr[n_ref] = NULL;
#endif
	u->curr++;
	g_refs++;
	return FORWARD_REFERENCE_INSERTION_SUCCESS;
}

/* -------------------------------------------------- meaning of a statement */
/* the statement grammar: a state, and the state after a token */
enum { G_START, G_LABEL, G_EQ, G_LITEND, G_INSTR, G_PAR, G_PARV, G_PARC, G_PARX, G_PARE, G_PAREC, G_V, G_VC, G_HASH, G_END,
       G_DEF, G_DEFL, G_ORG, G_BASE, G_BAD, G_DONE };
static int g_next(int st, int t)
{
	_Bool v = t == TOKEN_LABEL || t == TOKEN_LITERAL;
	switch (st) {
	case G_START: return t == TOKEN_LABEL ? G_LABEL : t == TOKEN_INSTRUCTION ? G_INSTR : t == TOKEN_DEFINE_DIRECTIVE ? G_DEF :
		t == TOKEN_ORG_DIRECTIVE ? G_ORG : t == TOKEN_END_DIRECTIVE ? G_END : t == TOKEN_BASE ? G_BASE : t == TOKEN_NULL ? G_DONE : G_BAD;
	case G_LABEL: return t == TOKEN_EQUAL_SIGN || t == TOKEN_EQU_DIRECTIVE ? G_EQ : t == TOKEN_INSTRUCTION ? G_INSTR : t == TOKEN_NULL ? G_DONE : G_BAD;
	case G_EQ: case G_ORG: case G_DEFL: return t == TOKEN_LITERAL ? G_LITEND : G_BAD;
	case G_DEF: return t == TOKEN_LABEL ? G_DEFL : G_BAD;
	case G_BASE: return t == TOKEN_EQUAL_SIGN ? G_ORG : G_BAD;
	case G_INSTR: return t == TOKEN_NULL ? G_DONE : t == TOKEN_OPEN_PARENTHESIS ? G_PAR : v ? G_V : t == TOKEN_IMMEDIATE ? G_HASH :
		t == TOKEN_ACCUMULATOR ? G_END : G_BAD;
	case G_HASH: return v ? G_END : G_BAD;
	case G_V: return t == TOKEN_NULL ? G_DONE : t == TOKEN_COMMA ? G_VC : G_BAD;
	case G_VC: return t == TOKEN_X_REGISTER || t == TOKEN_Y_REGISTER ? G_END : G_BAD;
	case G_PAR: return v ? G_PARV : G_BAD;
	case G_PARV: return t == TOKEN_COMMA ? G_PARC : t == TOKEN_CLOSE_PARENTHESIS ? G_PARE : G_BAD;
	case G_PARC: return t == TOKEN_X_REGISTER ? G_PARX : G_BAD;
	case G_PARX: return t == TOKEN_CLOSE_PARENTHESIS ? G_END : G_BAD;
	case G_PARE: return t == TOKEN_NULL ? G_DONE : t == TOKEN_COMMA ? G_PAREC : G_BAD;
	case G_PAREC: return t == TOKEN_Y_REGISTER ? G_END : G_BAD;
	case G_LITEND: case G_END: return t == TOKEN_NULL ? G_DONE : G_BAD;
	}
	return G_BAD;
}
/* a statement of len bytes at vp_pc; role and value of its byte n at Z */
static void emit(int len, int opc, int b1, int b2, int role)
{
	if (vp_pc + len > 0x10000) { k_fail = R_RANGE; return; }
	if (Z >= vp_pc && Z < vp_pc + len) {
		k_cov = k_cov ? 2 : 1;
		k_byte = Z == vp_pc ? opc : Z == vp_pc + 1 ? b1 : b2;
		k_role = role == P_REF ? P_REF : Z == vp_pc ? P_OPC : role;
		k_ref = role == P_REF ? k_fwd : -1;
	}
	if (role == P_REF) {
		if (k_fwd == J) {
			kj_set = 1; kj_key = s_oid == 1; kj_pc = vp_pc; kj_line = vp_line; kj_col = s_fcol; kj_m = s_m;
		}
		k_fwd++;
	}
	if (vp_pc + len > k_len) k_len = vp_pc + len;
	vp_pc += len;
	vp_total += len;
}
static void meaning(const int *ty, const unsigned *val, const int *id, const char *const *loc)
{
	int st = G_START, i = 0, m = -1, op = -1;
	_Bool imm = 0, acc = 0, ind = 0, x = 0, y = 0;
	for (int n = 0; n <= MAX_TOKENS; n++) {
		int t = n < MAX_TOKENS ? ty[n] : TOKEN_NULL;
		int nx = g_next(st, t);
		if (nx == G_BAD) {
			k_fail = R_SYNTAX;
			k_tok_syntax = n < MAX_TOKENS && t != TOKEN_NULL ? loc[n] : NULL;
			return;
		}
		if (nx == G_DONE) break;
		if (st >= G_INSTR && st <= G_END) {
			if (t == TOKEN_LABEL || t == TOKEN_LITERAL) op = n;
			imm |= t == TOKEN_IMMEDIATE; acc |= t == TOKEN_ACCUMULATOR; ind |= t == TOKEN_OPEN_PARENTHESIS;
			x |= t == TOKEN_X_REGISTER; y |= t == TOKEN_Y_REGISTER;
		}
		st = nx;
	}
	/* what the line defines */
	int v, dl = ty[0] == TOKEN_LABEL ? 0 : ty[0] == TOKEN_DEFINE_DIRECTIVE ? 1 : -1;
	_Bool equ = dl == 1 || ty[1] == TOKEN_EQUAL_SIGN || ty[1] == TOKEN_EQU_DIRECTIVE;
	if (dl >= 0) {
		s_defs = 1;
		s_did = id[dl];
		if (label_known(id[dl], &v)) {
			k_fail = R_REDEF; k_at_redef = 1; k_tok_redef = loc[dl];
			return;
		}
		if (!equ && vp_pc > 0xFFFF) { k_fail = R_LABELPC; return; }
		int nv = equ ? (int)val[2] : vp_pc;
		if (id[dl] == 1) { k_def = 1; k_val = nv; }
		k_count++;
	}
	if (ty[0] == TOKEN_ORG_DIRECTIVE) vp_pc = val[1];
	if (ty[0] == TOKEN_BASE) vp_pc = val[2];
	if (ty[0] == TOKEN_END_DIRECTIVE) k_done = 1;
	if (ty[0] != TOKEN_INSTRUCTION && !(ty[0] == TOKEN_LABEL && ty[1] == TOKEN_INSTRUCTION)) return;
	/* the instruction */
	m = s_m;
	_Bool br = sp_branch(m), jp = sp_jump(m), plain = !imm && !ind && !x && !y;
	int col;
	if (op < 0) {
		col = acc || SPEC_OPC[m][M_ACC] >= 0 ? M_ACC : M_IMP;
		if (SPEC_OPC[m][col] < 0) { k_fail = R_MODE; return; }
		emit(1, SPEC_OPC[m][col], 0, 0, P_OPC);
		return;
	}
	s_haslabel = ty[op] == TOKEN_LABEL;
	k_tok_operand = loc[op];
	_Bool known = 1;
	v = val[op];
	if (s_haslabel) {
		/* a label that the line itself defines is known by now */
		if (dl >= 0 && id[op] == id[dl]) v = equ ? (int)val[2] : vp_pc;
		else known = label_known(id[op], &v);
		s_oid = id[op];
	}
	if (!known) {
		if (!br && !jp) { k_fail = R_UNDEF; k_at_undef = 1; return; }
		col = br && plain ? M_REL : jp && plain ? M_ABS : jp && ind && !x && !y ? M_IND : M_NONE;
		if (col == M_NONE || SPEC_OPC[m][col] < 0) { k_fail = R_FWDMODE; return; }
		s_isfwd = 1;
		s_fcol = col;
		emit(fwd_len(col), 0, 0, 0, P_REF);
		return;
	}
	if (imm) col = v <= 0xFF ? M_IMM : M_NONE;
	else if (ind) col = x ? (v <= 0xFF ? M_INX : M_NONE) : y ? (v <= 0xFF ? M_INY : M_NONE) : M_IND;
	else if (x) col = jp || v > 0xFF ? M_ABX : M_ZPX;
	else if (y) col = jp || v > 0xFF ? M_ABY : M_ZPY;
	else if (br) col = M_REL;
	else if (jp) col = M_ABS;
	else col = v <= 0xFF ? M_ZP : M_ABS;
	if (col == M_NONE) { k_fail = R_VALUE; return; }
	if (SPEC_OPC[m][col] < 0) { k_fail = R_MODE; return; }
	if (col == M_REL) {
		int d = v;
		if (s_haslabel) {
			d = v - (vp_pc + 2);
			if (d < -128 || d > 127) { k_fail = R_OFFSET; return; }
		} else if (v > 0xFF) { k_fail = R_BRVALUE; return; }
		emit(2, SPEC_OPC[m][col], d & 0xFF, 0, s_haslabel ? P_BRANCH : P_LIT);
		return;
	}
	_Bool two = col == M_ABS || col == M_ABX || col == M_ABY || col == M_IND;
	emit(two ? 3 : 2, SPEC_OPC[m][col], v & 0xFF, v >> 8, !s_haslabel ? P_LIT : jp ? P_JUMP : P_LABEL);
}

/* --------------------------------------- the code has done what was meant */
static void effects(_Bool next)
{
	TAGGED(next || !vp_code && !k_pend, "[C04,C05,C11] no line is skipped, and the code of a long line is not dropped");
	TAGGED(k_fail != R_LEX, "[C03,C04,C11] a line with an illegal token ends the assembly");
	TAGGED(k_fail != R_LONG, "[C04,C11] code that does not fit in the line buffer ends the assembly");
	TAGGED(k_fail != R_SYNTAX, "[C05,C11] a line that matches no statement form ends the assembly");
	TAGGED(k_fail != R_REDEF, "[C07,C11] a second definition of a label ends the assembly");
	TAGGED(k_fail != R_RANGE && k_fail != R_LABELPC, "[C10,C11] code or a label beyond $FFFF ends the assembly");
	TAGGED(k_fail != R_MODE, "[C01,C02,C11] an addressing mode that the mnemonic does not have ends the assembly");
	TAGGED(k_fail != R_VALUE, "[C02,C11] a value of two bytes in a one-byte mode ends the assembly");
	TAGGED(k_fail != R_BRVALUE, "[C02,C08,C11] a branch literal of two bytes ends the assembly");
	TAGGED(k_fail != R_OFFSET, "[C08,C11] a branch that is too far ends the assembly");
	TAGGED(k_fail != R_UNDEF, "[C09,C11] an undefined operand that is no branch or jump target ends the assembly");
	TAGGED(k_fail != R_FWDMODE, "[C01,C02,C09,C11] an undefined jump target in another mode ends the assembly");
	TAGGED(!k_oom, "[C11,C13] running out of memory ends the assembly");
	TAGGED(d_n == 0, "[C11] the assembly ends after a diagnostic");
	TAGGED(g_def == k_def && (!g_def || g_val == k_val), "[C07,C11] the line's label is bound to its value, and no other label changes");
	TAGGED(g_count == k_count, "[C06,C07,C10] the line's label is counted");
	TAGGED(g_refs == k_fwd && s_added == s_isfwd, "[C09,C11] the reference to an undefined label is recorded");
	if (o_err || o_lost)
		return;
	TAGGED(f_len == k_len, "[C10,C11] the output ends at the highest byte emitted");
	TAGGED(f_w == (k_cov > 0) && (k_cov > 0 || f_byte == (Z < k_len ? 0 : -1)), "[C10,C11] bytes are written at the statement's addresses and nowhere else");
	if (k_cov == 1) {
		TAGGED(k_role != P_OPC || f_byte == k_byte, "[C01,C02,C11] the opcode is the documented one");
		TAGGED(k_role != P_LIT || f_byte == k_byte, "[C01,C02,C08,C11] the operand bytes are the value, low byte first");
		TAGGED(k_role != P_LABEL || f_byte == k_byte, "[C01,C07,C11] the operand bytes are the label's value, low byte first");
		TAGGED(k_role != P_BRANCH || f_byte == k_byte, "[C01,C08,C11] the displacement is the one to the label");
		TAGGED(k_role != P_JUMP || f_byte == k_byte, "[C01,C07,C08,C11] the jump has its label's address, low byte first");
	}
}
/* bytes of reference J once its label is g_val */
static int kj_byte(void)
{
	return Z == kj_pc ? SPEC_OPC[kj_m][kj_col] : kj_col == M_REL ? (g_val - kj_pc - 2) & 0xFF : Z == kj_pc + 1 ? g_val & 0xFF : g_val >> 8;
}
static _Bool kj_bad(void)
{
	return !g_def || kj_col == M_REL && (g_val - kj_pc - 2 < -128 || g_val - kj_pc - 2 > 127);
}
static void resolved(void)
{
	if (!kj_set || !kj_key)
		return;
	TAGGED(g_def, "[C09,C11] a referenced label that is never defined ends the assembly");
	TAGGED(!kj_bad(), "[C08,C09,C11] a forward branch that is too far ends the assembly");
	if (!o_err && !o_lost && k_cov == 1 && k_ref == J) {
		TAGGED(Z != kj_pc || f_byte == kj_byte(), "[C01,C08,C09,C11] a resolved reference has its opcode");
		TAGGED(Z == kj_pc || f_byte == kj_byte(), "[C07,C08,C09,C11] a resolved reference has its label's displacement or address");
	}
}
static int any_bad(void)
{
#ifdef NOCUT
	for (int i = 0; i < NREF; i++)
		if (i < n_ref && bad_ref(&ref_o[i]))
			return 1;
	return 0;
#else
	return vp_i >= 0 && vp_i < k_fwd && bad_ref(&ref_o[1]);
#endif
}
static void at_exit(int r)
{
	if ((r & 0xFF) == 0) {
		TAGGED(r == 0 && in_was && out_was, "[C11] success needs a source and an output");
		TAGGED(k_done, "[C11,C13] success means that everything up to .END or the end of the file was assembled");
		TAGGED(!k_readerr, "[C11] a source that cannot be read to its end is an error");
		TAGGED(!o_err && !o_lost && out_open == 2, "[C11] output that could not be written completely is an error");
		TAGGED(p_at == MSGN && !p_bad, "[C10,C11] the success message reports the totals");
		return;
	}
	TAGGED(p_at < MSG1, "[C11] no success message when the assembly fails");
	TAGGED(d_n > 0 || k_oom, "[C11] a failed assembly prints a diagnostic");
	/* why */
	_Bool why = k_fail || k_oom || k_io || k_readerr || o_err || o_lost || vp_code || k_done && any_bad();
	TAGGED(why || k_done, "[C01,C02,C05,C07,C08,C11] a valid statement is not rejected");
	TAGGED(why || !k_done, "[C08,C09,C11] a valid reference is not rejected");
}
/* the end of the program that is not a return from main */
void exit(int r) { at_exit(r); __CPROVER_assume(0); }
void abort(void) { __CPROVER_assert(0, "[C13] abort"); __CPROVER_assume(0); }

/* ------------------------------------------------------------- the lexer */
int lex_line(const char *buffer, struct Lexer *lx, struct Token *tk, struct Instruction *in, int line_num)
{
	int ty[MAX_TOKENS], id[MAX_TOKENS], o = 0, cnt, m, r;
	unsigned val[MAX_TOKENS];
	const char *loc[MAX_TOKENS];
	_Bool err = coin(), many = coin();
	__CPROVER_assert(lx == v_lexer && lx && tk == v_tk && tk && in == v_instr && in, "[C13] lex_line is given the lexer's objects");
	TAGGED(buffer == k_buf && k_chunk, "[C04,C05,C11,C13] lex_line is given the line just read, from its beginning");
	TAGGED(line_num == vp_line, "[C12] lex_line is given the number of the line");
	TAGGED(!k_mid, "[C04,C11,C12,C13] the rest of a long line is not taken for a line");
	/* the statement before this one */
	if (!CUT)
		effects(1);
	__CPROVER_assert(!k_done, "[C10,C11] nothing after .END is assembled");
	k_pend = 0;
	if (vp_code)
		k_fail = R_LONG;
	s_isfwd = s_added = s_defs = s_haslabel = 0;
	s_pc = vp_pc;
	s_fcol = M_NONE; s_did = s_oid = 0;
	k_at_redef = k_at_undef = 0;
	k_tok_syntax = k_tok_redef = k_tok_operand = NULL;
	if (err) {
		int e;
		__CPROVER_assume(sp_printable(e) && e != ERROR_TOO_MANY_TOKENS);
		k_fail = R_LEX;
		d_n++;
		return e;
	}
	lx->line = buffer;
	lx->line_num = line_num;
	__CPROVER_assume(0 <= cnt && cnt <= MAX_TOKENS && (!many || cnt == MAX_TOKENS));
	lx->curr = cnt;
	lx->error_tk = NULL;
	m = -1;
	in->mnemonic = NULL_MNEMONIC; in->addr_bitfield = 0; in->addr_bitflag = 0; in->opcode = iabs();
	for (int i = 1; i < 4; i++) {
		_Bool d; int v;
		if (!CUT && i > 1) break;      /* uncut: label 1 only stands for itself */
		o_def[i] = d; o_val[i] = v;
		__CPROVER_assume(0 <= v && v <= 0xFFFF);
	}
#define F(n, q, s) { int t, d, k; unsigned v, w; char c0; \
	__CPROVER_assume(t >= 0 && t < TOKEN_NULL && d >= 1 && d <= 3 && v <= 0xFFFF); \
	if (n >= cnt) t = TOKEN_NULL; \
	ty[n] = t; id[n] = d; val[n] = v; \
	__CPROVER_assume(k >= o && k < LINE - 1 - (MAX_TOKENS - n)); \
	o = k + 1; \
	loc[n] = n < cnt ? buffer + k : NULL; \
	q.type = t; q.buffer_location = loc[n]; q.value = t == TOKEN_LITERAL ? v : w; \
	if (t == TOKEN_LABEL) { s[0] = d; s[1] = 0; } else { s[0] = c0; __CPROVER_assume(c0 <= 0 || c0 > 3); s[1] = 0; } \
	if (t == TOKEN_INSTRUCTION) { int mm; __CPROVER_assume(mm >= 0 && mm < 56); m = mm; } }
	EACH(F)
#undef F
#ifdef MLO
	__CPROVER_assume(m >= MLO && m < MHI || m < 0 && MLO == 0);
#endif
	s_m = m;
	if (m >= 0) {
		int bf = 0;
		in->mnemonic = m;
		for (int k = 0; k < 13; k++)
			if (SPEC_OPC[m][k] >= 0)
				bf |= sp_bit(k);
		in->addr_bitfield = bf;
	}
	if (many)
		k_fail = R_SYNTAX;
	if (!k_fail || many)
		meaning(ty, val, id, loc);
	if (many)
		__CPROVER_assert(k_fail == R_SYNTAX, "spec: eight tokens and more match no statement form");
	if (many)
		return ERROR_TOO_MANY_TOKENS;
	__CPROVER_assume(r > 0);
	return r;
}

/* ------------------------------------------------------------ invariants */
#ifndef NOCUT
enum { M_MAIN = 1, M_READ = 2, M_RES = 4 };
static int masks[8];
static void inv_common(int assume)
{
	INV("files", in_open == 1 && out_open == 1 && in_was && out_was)
	INV("nothing printed", d_n == 0 && p_at == 0 && !p_bad && !k_oom && !k_io && !o_lost && o_seeked)
	INV("length", 0 <= k_len && k_len <= 0x10000 && (o_err || f_len == k_len) && f_len >= 0 && f_len <= 0x20000 && f_pos >= 0 && (o_err || f_pos <= 0x10000))
	INV("byte", f_byte >= -1 && f_byte <= 0xFF && k_byte >= 0 && k_byte <= 0xFF)
	INV("label", g_def == k_def && (!g_def || g_val == k_val) && g_val >= 0 && g_val <= 0xFFFF && k_val >= 0 && k_val <= 0xFFFF)
	INV("counts", vp_line >= 0 && vp_line <= MAXLINES && 0 <= k_count && k_count <= vp_line && 0 <= k_fwd && k_fwd <= vp_line &&
		0 <= vp_total && vp_total <= 3 * vp_line)
	INV("symbols", v_symtab->count == k_count && g_count == k_count)
	INV("references", v_unres->curr == k_fwd && g_refs == k_fwd)
	INV("address", 0 <= vp_pc && vp_pc <= 0x10000)
	INV("reference J", kj_set == (k_fwd > J))
	INV("reference J's instruction", !kj_set || (kj_col == M_REL || kj_col == M_ABS || kj_col == M_IND) && kj_m >= 0 && kj_m < 56 &&
		(sp_branch(kj_m) || sp_jump(kj_m)) && SPEC_OPC[kj_m][kj_col] >= 0 && kj_pc >= 0 && kj_pc <= 0x10000 && kj_pc + fwd_len(kj_col) <= k_len &&
		kj_line >= 1 && kj_line <= vp_line)
	INV("coverage", 0 <= k_cov && k_cov <= 2 && (k_cov == 0 || Z < k_len) && k_role >= P_NONE && k_role <= P_REF)
	INV("covering reference", k_cov != 1 || (k_role == P_REF ? k_ref >= 0 && k_ref < k_fwd : k_ref == -1))
	_Bool jz = kj_set && Z >= kj_pc && Z < kj_pc + fwd_len(kj_col);
	INV("reference J covers Z", !(k_cov == 1 && k_ref == J) || jz)
	INV("Z is covered by reference J", !jz || k_cov == 2 || k_cov == 1 && k_ref == J)
}
static void inv_bytes(int assume)
{
	INV("the byte at Z", o_err || f_w == (k_cov > 0) && (k_cov > 0 || f_byte == (Z < k_len ? 0 : -1)) &&
		(k_cov != 1 || k_role == P_REF || k_role == P_NONE || f_byte == k_byte))
	INV("a byte has a role", k_cov != 1 || k_role != P_NONE)
}
void vp_world(int loop, int assume)
{
	int mask = masks[loop];
	if (mask == M_READ) {
		INV("within a line", k_mid && !k_eof)
		return;
	}
	if (mask == M_MAIN) {
		if (!assume)
			effects(0);
		INV("no line in work", !k_mid && !k_done && !k_fail && !vp_code && !k_pend && vp_i < 0)
	} else {
		if (!assume) {
			effects(0);
			if (vp_i > J)
				resolved();
		}
		INV("the source has ended", k_done && !k_fail)
		INV("resolved so far", 0 <= vp_i && vp_i <= k_fwd)
		INV("reference J is resolved", !(vp_i > J && kj_set && kj_key) || !kj_bad() &&
			(o_err || !(k_cov == 1 && k_ref == J) || f_byte == kj_byte()))
	}
	inv_common(assume);
	inv_bytes(assume);
}
/* the reference at vp_i */
static void make_ref(void)
{
	int st, pc, ln, m, off, col;
	char id;
	if (vp_i >= k_fwd) {
		refs_arr[vp_i] = NULL;
		return;
	}
	for (int i = 2; i < 4; i++) {
		_Bool d; int v;
		o_def[i] = d; o_val[i] = v;
		__CPROVER_assume(0 <= v && v <= 0xFFFF);
	}
	__CPROVER_assume(id == 1 || id == 2);
	__CPROVER_assume(m >= 0 && m < 56 && (col == M_REL || col == M_ABS || col == M_IND) && SPEC_OPC[m][col] >= 0 && (sp_branch(m) || sp_jump(m)));
	__CPROVER_assume(pc >= 0 && pc <= 0x10000 && pc + fwd_len(col) <= k_len && ln >= 1 && ln <= vp_line && off >= 0 && off < LINE - 1);
	__CPROVER_assume(vp_i != J || pc == kj_pc && ln == kj_line && m == kj_m && col == kj_col && (id == 1) == kj_key);
	_Bool cz = Z >= pc && Z < pc + fwd_len(col);
	__CPROVER_assume(!cz || k_cov == 2 || k_cov == 1 && k_ref == vp_i);
	__CPROVER_assume(!(k_cov == 1 && k_ref == vp_i) || cz);
	ref_l[1][0] = id; ref_l[1][1] = 0;
	ref_i[1].mnemonic = m;
	ref_i[1].addr_bitfield = iabs(); ref_i[1].opcode = iabs();
	ref_i[1].addr_bitflag = sp_bit(col);
	ref_o[1].label = ref_l[1];
	ref_o[1].source_line = ref_s[1];
	ref_o[1].instr = &ref_i[1];
	ref_o[1].pc = pc;
	ref_o[1].line_num = ln;
	ref_o[1].operand_status = col == M_REL ? BRANCH_FORWARD_REFERENCE : JUMP_FORWARD_REFERENCE;
	ref_o[1].operand_location = ref_s[1] + off;
	refs_arr[vp_i] = &ref_o[1];
}
#define HAVOC(T, x) { T vp_x; x = vp_x; }
static void havoc_file(void)
{
	HAVOC(_Bool, o_err) HAVOC(long, f_pos) HAVOC(long, f_len) HAVOC(int, f_byte) HAVOC(_Bool, f_w)
}
void vp_world_havoc(int loop, int mask)
{
	masks[loop] = mask;
	if (mask == M_READ) {
		HAVOC(_Bool, vp_end) HAVOC(_Bool, vp_code)
		k_mid = 1; k_eof = 0;
		return;
	}
	havoc_file();
	if (mask == M_MAIN) {
		HAVOC(long, vp_line) HAVOC(_Bool, k_eof) HAVOC(_Bool, vp_end)
		k_mid = 0;
		HAVOC(int, vp_pc) HAVOC(int, vp_total) HAVOC(int, k_count) HAVOC(int, k_fwd) HAVOC(long, k_len)
		HAVOC(_Bool, k_def) HAVOC(int, k_val) HAVOC(_Bool, g_def) HAVOC(int, g_val)
		HAVOC(int, k_cov) HAVOC(int, k_byte) HAVOC(int, k_role) HAVOC(int, k_ref)
		HAVOC(_Bool, kj_set) HAVOC(_Bool, kj_key) HAVOC(int, kj_pc) HAVOC(int, kj_line) HAVOC(int, kj_col) HAVOC(int, kj_m)
		HAVOC(int, v_symtab->count) HAVOC(int, v_unres->curr) HAVOC(int, g_count) HAVOC(int, g_refs)
		HAVOC(struct Instruction, *v_instr)
		HAVOC(int, v_lexer->curr) HAVOC(int, v_lexer->line_num) HAVOC(const char *, v_lexer->line) HAVOC(struct Token *, v_lexer->error_tk)
		s_isfwd = s_added = 0;
	} else {
		HAVOC(int, vp_i)
		/* the loop may leave anything in these */
		HAVOC(struct Instruction, *v_instr)
	}
}
void vp_variant(int loop, int mask, int check)
{
	if (mask == M_MAIN) {
		if (check) __CPROVER_assert(k_read1, "every iteration reads a line");
		else { k_read1 = 0; }
	} else if (mask == M_READ) {
		if (check) __CPROVER_assert(k_read2, "every iteration reads a character");
		else k_read2 = 0;
	} else if (!check)
		make_ref();
}
void vp_step(int loop, int mask)
{
	if (mask == M_RES) vp_i++;
}
void vp_enter(int loop, int mask)
{
	masks[loop] = mask;
	if (mask == M_RES) vp_i = 0;
}
#endif

void harness(void)
{
	int argc, j;
	char *argv[2];
	long z;
	Z = z; J = j;
	__CPROVER_assume(Z >= 0 && Z <= 0x20000 && J >= 0);
	f_byte = -1;
	k_ref = -1;
	vp_i = -1;
	for (int i = 1; i < 4; i++) {
		_Bool d; int v;
		o_def[i] = d; o_val[i] = v;
		__CPROVER_assume(0 <= v && v <= 0xFFFF);
	}
#define F(n, q, s) q.str = s; seq[n] = &q;
	EACH(F)
#undef F
	int r = gaia_main(argc, argv);
	if ((r & 0xFF) == 0) {
		effects(0);
		resolved();
	}
	at_exit(r);
	__CPROVER_assert(r == 0, "REACH a failed assembly");
	__CPROVER_assert(r != 0, "REACH a successful assembly");
	__CPROVER_assert(r != 0 || !kj_set || !kj_key, "REACH a resolved reference");
	__CPROVER_assert(r == 0 || !k_done, "REACH a reference that cannot be resolved");
}
