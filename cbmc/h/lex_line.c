/* lex_line, with lex replaced by its contract and the token loop cut at its
 * invariant: k_n calls of lex have been made, and they are the tokens. */
/* lex as lex_line uses it.  lex is a function of the text it is given, so the
 * results of the calls lex_line must make, one after the other along the line,
 * are uninterpreted values k_*[0..8]: what is proved of lex_line holds for the
 * values that lex's contract defines. */
#define KMAX (MAX_TOKENS + 1)
enum { K_OK, K_LEXERR, K_COLON, K_MANY };   /* what the line as a whole is */
const char *k_line;
int k_pos[KMAX + 1], k_len[KMAX], k_err[KMAX], k_type[KMAX], k_mn[KMAX], k_n;
unsigned k_val[KMAX];
char k_ch[KMAX];
int k_sl[KMAX];                  /* length of the token's text */
int k_J, k_outcome, k_cnt, k_at;
int nblank[LINE + 1];            /* first non-blank at or after i */
static char b[LINE], s[TSTR], file[8];
static char s0[TSTR], s1[TSTR], s2[TSTR], s3[TSTR], s4[TSTR], s5[TSTR], s6[TSTR], s7[TSTR];
static struct Token t, q0, q1, q2, q3, q4, q5, q6, q7, *seq[MAX_TOKENS];
#define EACH(F) F(0, q0, s0) F(1, q1, s1) F(2, q2, s2) F(3, q3, s3) F(4, q4, s4) F(5, q5, s5) F(6, q6, s6) F(7, q7, s7)
static struct Instruction in;
static struct Lexer lx;
static int w_line_num, w_k;

int lex(const char *buffer, struct Token *tk, struct Instruction *instr)
{
	int k = k_n, v;
	__CPROVER_assert(k_n >= 0 && k_n < KMAX && buffer == k_line + k_pos[k_n], "[C04,C05] lex is given the next token of the line");
	__CPROVER_assert(tk->str[TSTR - 1] == 0, "lex is given a token with terminated text");
	k_n++;
	if (k_len[k] < 0) {
		tk->error_char = k_line + k_err[k];
		return k_len[k];
	}
	tk->type = k_type[k];
	tk->buffer_location = buffer;
	tk->value = v;
	for (int i = 0; i < TSTR - 1; i++) {
		char c;
		__CPROVER_assume(i >= k_sl[k] || c != 0);
		tk->str[i] = i == k_sl[k] ? 0 : c;
	}
	tk->str[TSTR - 1] = 0;
	if (k_type[k] == TOKEN_LITERAL)
		tk->value = k_val[k];
	if (k_type[k] == TOKEN_LABEL)
		__CPROVER_assume(k_J >= k_sl[k] || tk->str[k_J] == k_ch[k]);
	if (k_type[k] == TOKEN_INSTRUCTION) {
		instr->mnemonic = k_mn[k];
		instr->addr_bitfield = k_mn[k] + 7;
	}
	return k_len[k];
}
static _Bool token_ok(int n, int k, struct Token *q, const char *str, int *m)
{
	if (n >= k)
		return q->type == TOKEN_NULL && q->buffer_location == NULL && str[TSTR - 1] == 0;
	if (q->type != k_type[n] || q->buffer_location != b + k_pos[n] || str[TSTR - 1] != 0)
		return 0;
	if (k_type[n] == TOKEN_LITERAL && q->value != k_val[n])
		return 0;
	if (k_type[n] == TOKEN_LABEL && k_J <= k_sl[n] && str[k_J] != (k_J == k_sl[n] ? 0 : k_ch[n]))
		return 0;
	if (k_type[n] == TOKEN_INSTRUCTION)
		*m = k_mn[n];
	return 1;
}
static _Bool tokens_ok(int k, int many)
{
	int m = NULL_MNEMONIC;
#define F(n, q, s) if (!token_ok(n, k, &q, s, &m)) return 0;
	EACH(F)
#undef F
	return many || (in.mnemonic == m && (m == NULL_MNEMONIC || in.addr_bitfield == m + 7) && in.addr_bitflag == 0);
}
static _Bool post(int line_num, int r)
{
	if (k_outcome == K_LEXERR || k_outcome == K_COLON)
		return r < 0 && r != ERROR_TOO_MANY_TOKENS && g_err_n == 1 && g_err_line == b &&
		       g_err_at == b + k_at && g_err_lineno == line_num && g_err_file == file;
	return g_err_n == 0 && lx.line == b && lx.line_num == line_num &&
	       (k_outcome == K_MANY ? r == ERROR_TOO_MANY_TOKENS : r > 0) && tokens_ok(k_cnt, k_outcome == K_MANY);
}
/* a loop that does not call lex skips blanks up to the next token */
_Bool vp_blank_at(const char *p)
{
	return __CPROVER_same_object(p, k_line) && p >= k_line && p - k_line < LINE && nblank[p - k_line] == k_pos[k_n];
}
const char *vp_blank(void)
{
	int o;
	__CPROVER_assume(0 <= o && o < LINE && nblank[o] == k_pos[k_n]);
	return k_line + o;
}
void vp_world(int loop, int assume)
{
	INV("calls of lex", 0 <= k_n && k_n <= k_cnt && k_cnt <= MAX_TOKENS)
	INV("tokens read so far", lx.curr == k_n && tokens_ok(k_n, 0))
	INV("line, number and file", lx.line == b && lx.line_num == w_line_num && lx.file_name == file)
	INV("running token text", s[TSTR - 1] == 0)
	INV("no diagnostic", g_err_n == 0)
}
void vp_world_havoc(int loop, int mask)
{
	struct Lexer l;
	/* one job per number of tokens read so far: 0..8 are all that the
	 * invariant allows, and vp_world checks that */
	k_n = KN;
	lx.curr = KN; lx.error_tk = l.error_tk; lx.line_num = l.line_num; lx.line = l.line; lx.file_name = l.file_name;
	struct Token u;
	t.type = u.type; t.value = u.value; t.error_char = u.error_char; t.buffer_location = u.buffer_location;
	struct Instruction i;
	in = i;
#define F(n, q, s) { struct Token u; q.type = u.type; q.value = u.value; q.error_char = u.error_char; q.buffer_location = u.buffer_location; \
	__CPROVER_havoc_object(s); }
	EACH(F)
#undef F
	__CPROVER_havoc_object(s);
	/* no diagnostic has been printed at the head, so those ghosts stay */
}
void vp_variant(int loop, int mask, int check)
{
	if (check)
		__CPROVER_assert(k_n > w_k && w_k >= 0, "every iteration reads a token");
	else
		w_k = k_n;
}
void harness(void)
{
	char b0[LINE];
	struct Token t0;
	struct Instruction in0;
	struct Lexer lx0;
	int line_num, J, X;
	t = t0;
	t.str = s;
	in = in0;
	for (int i = 0; i < LINE; i++)
		b[i] = b0[i];
	b[LINE - 1] = 0;
	__CPROVER_havoc_object(s);
	s[TSTR - 1] = 0;
#define F(n, q, s) { struct Token u; q = u; q.str = s; seq[n] = &q; __CPROVER_havoc_object(s); }
	EACH(F)
#undef F
	lx = lx0;
	lx.sequence = seq;
	lx.file_name = file;
	k_line = b;
	k_J = J;
	__CPROVER_assume(0 <= J && J < TSTR);
	int len = LINE - 1;
	nblank[LINE] = LINE;
	for (int i = LINE - 1; i >= 0; i--) {
		nblank[i] = b[i] == ' ' || b[i] == '\t' ? nblank[i + 1] : i;
		if (b[i] == 0)
			len = i;
	}
	k_pos[0] = nblank[0];
	k_outcome = -1;
	for (int n = 0; n < KMAX; n++) {
		int l, e, ty, mn, sl;
		unsigned v;
		char c;
		k_len[n] = l; k_err[n] = e; k_type[n] = ty; k_mn[n] = mn; k_val[n] = v; k_ch[n] = c; k_sl[n] = sl;
		__CPROVER_assume((ty == TOKEN_LABEL) <= sl && sl < TSTR);
		if (k_outcome >= 0)
			continue;
		/* consequences of lex's contract: a token lies before the terminator */
		__CPROVER_assume(l != 0 && (l > 0 || sp_printable(l)) && l != ERROR_TOO_MANY_TOKENS && l <= len - k_pos[n]);
		__CPROVER_assume(k_pos[n] <= e && e <= len);
		__CPROVER_assume(ty >= 0 && ty < TOKEN_NULL && mn >= 0 && mn < 56);
		k_cnt = n;
		if (sp_eol(b[k_pos[n]])) {
			k_outcome = K_OK;
		} else if (n == MAX_TOKENS) {
			/* whatever the ninth token is: too many, or an illegal one */
			k_outcome = l < 0 ? K_LEXERR : K_MANY;
			k_at = e;
		} else if (l < 0) {
			k_outcome = K_LEXERR;
			k_at = e;
		} else {
			int p = k_pos[n] + l;
			if (b[p] == ':') {
				if (n == 0 && ty == TOKEN_LABEL) {
					p++;
				} else {
					k_outcome = K_COLON;
					k_at = p;
				}
			}
			k_pos[n + 1] = nblank[p];
		}
	}
	g_err_n = 0;
	k_n = 0;
	w_line_num = line_num;
	__CPROVER_assume(0 <= X && X < LINE);
	int r = lex_line(b, &lx, &t, &in, line_num);
	__CPROVER_assert(post(line_num, r), "[C04,C05,C12] lex_line returns the tokens of the line, or reports the first offender");
	__CPROVER_assert(b[X] == (X == LINE - 1 ? 0 : b0[X]), "[C04,C12,C13] lex_line leaves the line unchanged");
	__CPROVER_assert(r < 0 || (k_n == k_cnt && k_outcome == K_OK), "[C04,C05] all tokens of the line were read");
	__CPROVER_assert(r < 0, "REACH a line of tokens");
	__CPROVER_assert(r > 0, "REACH an error");
}
