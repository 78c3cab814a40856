/* create_forward_ref and destroy_forward_ref (forward_reference.c, opcode.c) */
#include <stdlib.h>
#include <string.h>
char b[LINE];
static char s[TSTR];
int last, len;
static int n;
_Bool vp_tail(const char *p) { return __CPROVER_same_object(p, b) && p >= b + last && p < b + len; }
const char *vp_tailp(void) { int o; __CPROVER_assume(o >= last && o < len); return b + o; }
__CPROVER_size_t strlen(const char *p)
{
	if (p == s) return n;
	__CPROVER_assert(__CPROVER_same_object(p, b) && p >= b && p - b <= len, "model: strlen of the line or the label");
	return len - (p - b);
}
void harness(void)
{
	char v[LINE], w[TSTR];
	int l, la, nn, at, X, Y, status, pc, line_num, k;
	struct Token t;
	struct Instruction in, in0;
	for (int i = 0; i < LINE; i++) b[i] = v[i];
	for (int i = 0; i < TSTR; i++) s[i] = w[i];
	len = l; last = la; n = nn;
	/* the line has code: its last character that is no blank is at last, the operand begins at at */
	__CPROVER_assume(0 <= at && at <= last && last < len && len < LINE && n >= 1 && n < TSTR);
	for (int i = 0; i < LINE; i++) {
		_Bool bl = b[i] == ' ' || b[i] == '\t' || b[i] == '\n';
		__CPROVER_assume(i >= len || b[i] != 0);
		__CPROVER_assume(i >= len || b[i] != '\n' || i == len - 1);
		__CPROVER_assume(i != len || b[i] == 0);
		__CPROVER_assume(i <= last || i >= len || bl);
		__CPROVER_assume(i != last && i != at || !bl);
	}
	for (int i = 0; i < TSTR; i++) {
		__CPROVER_assume(i >= n || s[i] != 0);
		__CPROVER_assume(i != n || s[i] == 0);
	}
	__CPROVER_assume(X >= 0 && X < LINE && Y >= 0 && Y < TSTR);
	t.str = s;
	t.buffer_location = b + at;
	in0 = in;
	struct ForwardRef *r = create_forward_ref(b, &in, &t, status, pc, line_num);
	__CPROVER_assert(b[X] == v[X] && s[Y] == w[Y], "[C13] recording a reference leaves the line and the token unchanged");
	if (!r) {
		__CPROVER_assert(0, "REACH out of memory");
		return;
	}
	__CPROVER_assert(r->pc == pc && r->line_num == line_num && r->operand_status == status, "[C08,C09,C12] a reference keeps its address, line and kind");
	__CPROVER_assert(r->instr != &in && r->instr->mnemonic == in0.mnemonic && r->instr->addr_bitflag == in0.addr_bitflag, "[C01,C02,C09] a reference keeps its own instruction");
	__CPROVER_assert(r->label != s && (Y > n || r->label[Y] == (Y < n ? w[Y] : 0)), "[C07,C09] a reference keeps its own label");
	__CPROVER_assert(r->operand_location == r->source_line + at, "[C12] a reference keeps the position of its operand");
	long sz = __CPROVER_OBJECT_SIZE(r->source_line);
	__CPROVER_assert(r->source_line && __CPROVER_POINTER_OFFSET(r->source_line) == 0 && sz > last + 1, "[C12,C13] a reference keeps the text of its line");
	__CPROVER_assert(X >= sz || (X <= last ? r->source_line[X] == v[X] : r->source_line[X] == 0 || X < len && r->source_line[X] == v[X]), "[C12] a reference keeps the text of its line");
	__CPROVER_assert(r->source_line[sz - 1] == 0, "[C12,C13] the text of a reference's line is terminated");
	__CPROVER_assert(r->source_line != b, "[C12,C13] a reference keeps its own copy of the line");
	__CPROVER_assert(0, "REACH a reference");
	destroy_forward_ref(r);
}
