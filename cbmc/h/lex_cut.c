/* lex with the scanning loop of a literal, a directive or a word cut at an
 * invariant.  CLASS 0: literal, 1: word, 2: directive, 3: everything else. */
char b[LINE];
int k_o, k_lo, k_hi, k_base;        /* position; where the digits begin and end */
/* The value of the digits before i, stuck once it exceeds $FFFF, is defined by
 * K(k_lo) = 0, K(i+1) = step(K(i), b[i]).  The proof instantiates the step at
 * one arbitrary position k_i (and k_hi's definition too: b[k_i] is a digit if
 * k_lo <= k_i < k_hi, and b[k_hi] is none); elsewhere K is unknown. */
int k_i = -1, k_v0, k_v1;
#ifdef NOCUT
int k_tab[LINE];
#endif
static int K(int i)
{
#ifdef NOCUT
	return k_tab[i];
#else
	int unknown;
	return i == k_i ? k_v0 : k_i >= 0 && i == k_i + 1 ? k_v1 : i == k_lo ? 0 : unknown;
#endif
}
#ifndef CLASS
#define CLASS 0
#endif
/* a pointer into the digits */
_Bool vp_pos_at(const char *p)
{
	_Bool ok = __CPROVER_same_object(p, b) && p - b >= k_lo && p - b <= k_hi;
	if (ok)
		k_o = p - b;
	return ok;
}
static _Bool digit(int i);
static int step(int v, int i)
{
	return v > 0xFFFF ? v : (k_base == 16 ? v << 4 : k_base == 2 ? v << 1 : (v << 3) + (v << 1)) + sp_digit(b[i], k_base);
}
static void instantiate(int i)
{
	int v, w;
	__CPROVER_assume(v >= 0 && v <= 0xFFFFF && (i != k_lo || v == 0));
	k_i = i; k_v0 = v; k_v1 = w;
	if (i >= k_lo && i < k_hi)
		__CPROVER_assume(digit(i) && k_v1 == (CLASS ? 0 : step(v, i)));
}
_Bool vp_pos_int(long i)
{
	_Bool ok = i >= k_lo && i <= k_hi;
	if (ok)
		k_o = i;
	return ok;
}
long vp_pos(void)
{
	int o;
	__CPROVER_assume(k_lo <= o && o <= k_hi);
	k_o = o;
#ifndef NOCUT
	instantiate(o);
#endif
	return o;
}
/* v is the value of the digits before k_o, or both are too big */
_Bool vp_value(long v)
{
	int k = K(k_o);
	return k <= 0xFFFF ? v == k : v > 0xFFFF && v <= 0xFFFFFF;
}
static _Bool digit(int i)
{
	return CLASS == 0 ? sp_digit(b[i], k_base) >= 0 : CLASS == 1 ? sp_word(b[i]) : sp_alpha(b[i]);
}
void vp_world(int loop, int assume) {}
/* the loop leaves everything but its own variables as it was, in every iteration that is followed by another */
static char b0[LINE], s[TSTR];
static struct Token t, w_t;
static struct Instruction in, w_in;
static char w_c, w_d;
static int X, Y;
void vp_world_havoc(int loop, int mask) {}
void vp_variant(int loop, int mask, int check)
{
	if (!check) {
		w_t = t; w_in = in; w_c = s[X]; w_d = b[Y];
	} else {
		__CPROVER_assert(t.type == w_t.type && t.str == w_t.str && t.value == w_t.value && t.error_char == w_t.error_char &&
			t.buffer_location == w_t.buffer_location && s[X] == w_c && b[Y] == w_d && in.mnemonic == w_in.mnemonic &&
			in.addr_bitfield == w_in.addr_bitfield && in.addr_bitflag == w_in.addr_bitflag && in.opcode == w_in.opcode,
			"invariant: the scanning loop changes nothing but its own variables");
	}
}
void harness(void)
{
	struct Token t0, t1;
	struct Instruction i0, i1;
	int X0, Y0;
	t = t1; in = i1; X = X0; Y = Y0;
	__CPROVER_assume(0 <= X && X < TSTR && 0 <= Y && Y < LINE);
	t.str = s;
	__CPROVER_havoc_object(s);
	s[TSTR - 1] = 0;
	for (int i = 0; i < LINE; i++) {
		char c;
		b0[i] = b[i] = i == LINE - 1 ? 0 : c;
	}
	char c = b[0];
	t0 = t; i0 = in;
	__CPROVER_assume(CLASS == (sp_alpha(c) ? 1 : c == '.' ? 2 : c == '$' || c == '%' || (c >= '0' && c <= '9') ? 0 : 3));
#ifdef BASE
	__CPROVER_assume(BASE == (c == '$' ? 16 : c == '%' ? 2 : 10));
	int base = BASE;
#else
	int base = c == '$' ? 16 : c == '%' ? 2 : 10;
#endif
	k_lo = CLASS == 2 || (CLASS == 0 && base != 10);
	k_base = base;
#ifdef NOCUT
	int v = 0;
	k_hi = LINE - 1;
	for (int i = LINE - 1; i >= 0; i--)
		if (i >= k_lo && (!digit(i) || (CLASS && i == TSTR)))
			k_hi = i;
	for (int i = 0; i < LINE; i++) {
		k_tab[i] = v;
		if (CLASS == 0 && i >= k_lo && i < k_hi)
			v = step(v, i);
	}
#else
	int hi;
	k_hi = hi;
	__CPROVER_assume(k_lo <= k_hi && k_hi <= LINE - 1);
	if (CLASS)
		__CPROVER_assume(k_hi == TSTR || (k_hi < TSTR && !digit(k_hi)));
	else
		__CPROVER_assume(!digit(k_hi));
	/* the definition of k_hi at the two tracked positions */
	__CPROVER_assume(Y < k_lo || Y >= k_hi || digit(Y));
	__CPROVER_assume(X < k_lo || X >= k_hi || digit(X));
	/* a word begins with a letter */
	__CPROVER_assume(CLASS != 1 || k_hi > 0);
#endif
	int r = lex(b, &t, &in);
	if (CLASS == 0) {
		int value = K(k_hi);
		_Bool ok = sp_eot(b[k_hi]) && k_hi != k_lo && value <= 0xFFFF;
		int at = sp_eot(b[k_hi]) && k_hi != k_lo ? 0 : k_hi;
		__CPROVER_assert(!ok || (r == k_hi && t.type == TOKEN_LITERAL && t.value == value), "[C03,C04] a literal denotes the value of its digits");
		__CPROVER_assert(ok || r < 0, "[C03,C04] a malformed or too big literal is rejected");
		__CPROVER_assert(ok || r >= 0 || t.error_char == b + at, "[C12,C04] the offending character of a literal is located");
		__CPROVER_assert(in.mnemonic == i0.mnemonic && in.addr_bitfield == i0.addr_bitfield && in.addr_bitflag == i0.addr_bitflag,
			"[C03,C01] a literal leaves the instruction alone");
	} else {
		_Bool ok = CLASS == 1 ? (k_hi < TSTR && (sp_eot(b[k_hi]) || b[k_hi] == ':')) : 1;
		if (CLASS == 1) {
			int m = ILLEGAL_MNEMONIC;
			for (int k = 0; k < 56; k++)
				if (k_hi == 3 && sp_up(b[0]) == SPEC_NAME[k][0] && sp_up(b[1]) == SPEC_NAME[k][1] && sp_up(b[2]) == SPEC_NAME[k][2])
					m = k;
			int type = m != ILLEGAL_MNEMONIC ? TOKEN_INSTRUCTION : k_hi != 1 ? TOKEN_LABEL : sp_up(c) == 'X' ? TOKEN_X_REGISTER :
				sp_up(c) == 'Y' ? TOKEN_Y_REGISTER : sp_up(c) == 'A' ? TOKEN_ACCUMULATOR : TOKEN_LABEL;
			__CPROVER_assert(ok == (r >= 0), "[C04] a word is accepted exactly when it is at most 63 letters, digits and underscores");
			__CPROVER_assert(!ok || r == k_hi, "[C04] a word ends where its characters end");
			__CPROVER_assert(ok || r >= 0 || t.error_char == b + (k_hi == TSTR ? 0 : k_hi), "[C12,C04] the offending character of a word is located");
			__CPROVER_assert(!ok || t.type == type, "[C01,C04] a word is a mnemonic, a register, the accumulator or a label by its exact letters");
			__CPROVER_assert(!ok || X > k_hi || t.str[X] == (X == k_hi ? 0 : sp_up(b[X])), "[C04,C07] a word's text is its letters in upper case");
			if (ok && m != ILLEGAL_MNEMONIC)
				__CPROVER_assert(in.mnemonic == m && post_bitfield(m, in.addr_bitfield), "[C01] a mnemonic selects its instruction and addressing modes");
			else
				__CPROVER_assert(in.mnemonic == i0.mnemonic && in.addr_bitfield == i0.addr_bitfield, "[C01,C04] a word that is no mnemonic leaves the instruction alone");
			__CPROVER_assert(in.addr_bitflag == i0.addr_bitflag, "[C01] a word leaves the addressing mode open");
		} else if (CLASS == 2) {
			int type = -1, at, n = sp_directive(b, &type, &at);
			__CPROVER_assert(n < 0 ? r < 0 : r == n && t.type == type, "[C04] a directive is recognised by its exact letters");
			__CPROVER_assert(n >= 0 || r >= 0 || t.error_char == b + at, "[C12,C04] the offending character of a directive is located");
			__CPROVER_assert(in.mnemonic == i0.mnemonic && in.addr_bitfield == i0.addr_bitfield, "[C04] a directive leaves the instruction alone");
		} else {
			__CPROVER_assert(sp_single(c) >= 0 ? r == 1 && t.type == sp_single(c) : r < 0, "[C04] punctuation is recognised and everything else rejected");
			__CPROVER_assert(r >= 0 || t.error_char == b, "[C12,C04] the offending character is located");
			__CPROVER_assert(in.mnemonic == i0.mnemonic && in.addr_bitfield == i0.addr_bitfield, "[C04] punctuation leaves the instruction alone");
		}
	}
	__CPROVER_assert(r <= 0 || t.buffer_location == b, "[C04,C12] a token records where it begins");
	__CPROVER_assert(r < 0 || (r > 0 && r < LINE && (Y >= r || b[Y] != 0) && (t.type != TOKEN_LABEL || s[0] != 0)), "[C04,C13] a token lies on the line and its text is terminated");
	__CPROVER_assert(r >= 0 || (sp_printable(r) && r != ERROR_TOO_MANY_TOKENS && t.error_char >= b && t.error_char < b + LINE), "[C12,C13] an error lies on the line");
	__CPROVER_assert(t.str == s && s[TSTR - 1] == 0, "[C04,C13] the token's text stays terminated");
	__CPROVER_assert(b[Y] == b0[Y], "[C04,C13] lexing leaves the line unchanged");
	__CPROVER_assert(0, "REACH end");
}

#ifdef STUBS
/* what this class of tokens never needs */
#define NEVER { __CPROVER_assert(0, "[C04] a token is lexed by its first character"); __CPROVER_assume(0); return -1; }
#if CLASS != 0
int lex_literal(const char *literal, struct Token *tk) NEVER
#endif
#if CLASS != 1
int lex_text(const char *buffer, struct Token *tk, struct Instruction *instr) NEVER
#endif
#if CLASS != 2
int lex_directive(const char *buffer, struct Token *tk) NEVER
#endif
#endif
