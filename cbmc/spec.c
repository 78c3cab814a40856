/* Specification functions used by contracts.h. */
_Bool sp_streq(const char *a, const char *b)
{
	for (int i = 0; i < TSTR; i++) {
		if (a[i] != b[i])
			return 0;
		if (a[i] == 0)
			return 1;
	}
	return 1;
}

int sp_strlen(const char *a)
{
	int i = 0;
	for (; i < LINE - 1 && a[i]; i++)
		;
	return i;
}

_Bool sp_term(const char *a)
{
	for (int i = 0; i < TSTR; i++)
		if (a[i] == 0)
			return 1;
	return 0;
}

_Bool sp_eol(char c)
{
	return c == '\r' || c == '\n' || c == ';' || c == 0 || c == (char)0xFF;
}

_Bool sp_eot(char c)
{
	return sp_eol(c) || c == ' ' || c == '\t' || c == ',' || c == '(' || c == ')';
}

_Bool sp_alpha(char c)
{
	return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}

_Bool sp_word(char c)
{
	return sp_alpha(c) || (c >= '0' && c <= '9') || c == '_';
}

char sp_up(char c)
{
	return c >= 'a' && c <= 'z' ? (char)(c - 'a' + 'A') : c;
}

int sp_digit(char c, int base)
{
	int v = c >= '0' && c <= '9' ? c - '0' :
	        c >= 'a' && c <= 'f' ? c - 'a' + 10 :
	        c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
	return v < base ? v : -1;
}

_Bool sp_branch(int m)
{
	return m >= 0 && m < 56 && SPEC_OPC[m][3] >= 0;
}

_Bool sp_jump(int m)
{
	return m == JMP || m == JSR;
}

int sp_bit(int k)
{
	static const int bits[13] = {ADDR_MODE_ACCUMULATOR, ADDR_MODE_IMPLIED, ADDR_MODE_IMMEDIATE,
		ADDR_MODE_RELATIVE, ADDR_MODE_ABSOLUTE, ADDR_MODE_ABSOLUTE_X, ADDR_MODE_ABSOLUTE_Y,
		ADDR_MODE_INDIRECT, ADDR_MODE_X_INDEXED_INDIRECT, ADDR_MODE_INDIRECT_Y_INDEXED,
		ADDR_MODE_ZERO_PAGE, ADDR_MODE_ZERO_PAGE_X, ADDR_MODE_ZERO_PAGE_Y};
	return bits[k];
}

int sp_col(int bit)
{
	for (int k = 0; k < 13; k++)
		if (sp_bit(k) == bit)
			return k;
	return M_NONE;
}

int sp_opcode(int m, int bit)
{
	int k = sp_col(bit);
	return m < 0 || m >= 56 || k == M_NONE ? -1 : SPEC_OPC[m][k];
}

int sp_mnemonic(const char *s)
{
	for (int m = 0; m < 56; m++)
		if (s[0] == SPEC_NAME[m][0] && s[1] == SPEC_NAME[m][1] && s[2] == SPEC_NAME[m][2] && s[3] == 0)
			return m;
	return ILLEGAL_MNEMONIC;
}

_Bool post_bitfield(int m, int r)
{
	if (m < 0 || m >= 56)
		return r < 0;
	for (int k = 0; k < 13; k++)
		if (((r & sp_bit(k)) != 0) != (SPEC_OPC[m][k] >= 0))
			return 0;
	return r > 0;
}

_Bool post_opcode(int m, int bit, int r)
{
	int e = sp_opcode(m, bit);
	return e < 0 ? r < 0 : r == e;
}

int sp_literal(const char *s, unsigned *val, int *at)
{
	int base = s[0] == '$' ? 16 : s[0] == '%' ? 2 : 10;
	int i = base == 10 ? 0 : 1, start = i;
	unsigned v = 0;
	*at = 0;
	for (; i < LINE - 1; i++) {
		int d = sp_digit(s[i], base);
		if (d < 0)
			break;
		/* once above 0xFFFF more digits cannot bring the value back */
		if (v <= 0xFFFF)
			v = (base == 16 ? v << 4 : base == 2 ? v << 1 : v * 10) + d;
	}
	if (!sp_eot(s[i]) || i == start) {
		*at = i;
		return -1;
	}
	if (v > 0xFFFF)
		return -1;
	*val = v;
	return i;
}

_Bool post_lex_literal(const char *s, struct Token *tk, int r)
{
	unsigned v = 0;
	int at, n = sp_literal(s, &v, &at);
	if (n < 0)
		return r < 0 && tk->error_char == s + at;
	return r == n && tk->type == TOKEN_LITERAL && tk->value == v;
}

int sp_directive(const char *s, int *type, int *at)
{
	static const char name[4][8] = {"DEFINE", "EQU", "ORG", "END"};
	int n = 1;
	*at = 0;
	for (; n < TSTR; n++) {
		if (sp_eot(s[n]))
			break;
		if (!sp_alpha(s[n])) {
			*at = n;
			return -1;
		}
	}
	for (int k = 0; k < 4; k++) {
		int i = 0;
		for (; i < 7 && name[k][i]; i++)
			if (sp_up(s[1 + i]) != name[k][i])
				break;
		if (name[k][i] == 0 && n == i + 1) {
			*type = k == 0 ? TOKEN_DEFINE_DIRECTIVE : k == 1 ? TOKEN_EQU_DIRECTIVE :
			        k == 2 ? TOKEN_ORG_DIRECTIVE : TOKEN_END_DIRECTIVE;
			return n;
		}
	}
	return -1;
}

_Bool post_lex_directive(const char *s, struct Token *tk, int r)
{
	int type = -1, at, n = sp_directive(s, &type, &at);
	if (n < 0)
		return r < 0 && tk->error_char == s + at;
	return r == n && tk->type == type;
}

int sp_text(const char *s, int *at)
{
	int n = 0;
	*at = 0;
	for (; n < TSTR; n++) {
		if (sp_eot(s[n]) || s[n] == ':')
			return n;
		if (!sp_word(s[n])) {
			*at = n;
			return -1;
		}
	}
	return -1;
}

_Bool post_lex_text(const char *s, struct Token *tk, struct Instruction *in, int r, int old_m, int old_f)
{
	int at, n = sp_text(s, &at);
	if (n < 0)
		return r < 0 && tk->error_char == s + at;
	if (r != n || tk->str[n] != 0)
		return 0;
	for (int i = 0; i < TSTR - 1; i++)
		if (i < n && tk->str[i] != sp_up(s[i]))
			return 0;
	int m = ILLEGAL_MNEMONIC;
	for (int k = 0; k < 56; k++)
		if (n == 3 && sp_up(s[0]) == SPEC_NAME[k][0] && sp_up(s[1]) == SPEC_NAME[k][1] && sp_up(s[2]) == SPEC_NAME[k][2])
			m = k;
	if (m != ILLEGAL_MNEMONIC)
		return tk->type == TOKEN_INSTRUCTION && in->mnemonic == m && post_bitfield(m, in->addr_bitfield);
	if (in->mnemonic != old_m || in->addr_bitfield != old_f)
		return 0;
	if (n == 1 && sp_up(s[0]) == 'X')
		return tk->type == TOKEN_X_REGISTER;
	if (n == 1 && sp_up(s[0]) == 'Y')
		return tk->type == TOKEN_Y_REGISTER;
	if (n == 1 && sp_up(s[0]) == 'A')
		return tk->type == TOKEN_ACCUMULATOR;
	return tk->type == TOKEN_LABEL;
}

int sp_single(char c)
{
	return c == '#' ? TOKEN_IMMEDIATE : c == '(' ? TOKEN_OPEN_PARENTHESIS : c == ')' ? TOKEN_CLOSE_PARENTHESIS :
	       c == ',' ? TOKEN_COMMA : c == '=' ? TOKEN_EQUAL_SIGN : c == '*' ? TOKEN_BASE : -1;
}


_Bool post_lex(const char *s, struct Token *tk, struct Instruction *in, int r, int old_m, int old_f)
{
	char c = s[0];
	if (r > 0 && tk->buffer_location != s)
		return 0;
	if (sp_alpha(c))
		return post_lex_text(s, tk, in, r, old_m, old_f);
	/* only a text token may change the instruction */
	if (in->mnemonic != old_m || in->addr_bitfield != old_f)
		return 0;
	if (sp_single(c) >= 0)
		return r == 1 && tk->type == sp_single(c);
	if (c == '$' || c == '%' || (c >= '0' && c <= '9'))
		return post_lex_literal(s, tk, r);
	if (c == '.')
		return post_lex_directive(s, tk, r);
	return r < 0 && tk->error_char == s;
}

_Bool post_lex_shape(const char *s, struct Token *tk, int r)
{
	if (r < 0)
		return 1;
	if (r == 0 || r >= LINE)
		return 0;
	for (int i = 0; i < LINE - 1; i++)
		if (i < r && s[i] == 0)
			return 0;
	return sp_term(tk->str) && (tk->type != TOKEN_LABEL || tk->str[0] != 0);
}


_Bool sp_nonul(const char *s, int n)
{
	for (int i = 0; i < TSTR; i++)
		if (i < n && s[i] == 0)
			return 0;
	return 1;
}

_Bool sp_printable(int code)
{
	return code < 0 && code >= ERROR_BINARY_FILE_WRITE_FAIL && code != ERROR_SYMBOL_NOT_FOUND &&
	       code != ERROR_INSTRUCTION_NOT_FOUND && code != ERROR_BITFIELD_NOT_FOUND && code != ERROR_ILLEGAL_MNEMONIC;
}
