/* Contracts on gaia's functions.  Force-included (-include) when goto-cc
 * compiles the unmodified /repo/src files and the harnesses. */
#ifndef VP_CONTRACTS_H
#define VP_CONTRACTS_H
#include <stdio.h>
#include <stddef.h>
#include "addressing_modes.h"
#include "error.h"
#include "opcode.h"
#include "lexer.h"
#include "symbol_table.h"
#include "parser.h"
#include "forward_reference.h"
#include "generator.h"
#include "spec_table.h"

#ifndef LINE
#define LINE 128                  /* main's line buffer: 127 chars + NUL */
#endif
#define TSTR 64                   /* bytes of a token string */
#define RET __CPROVER_return_value

/* ---------------------------------------------------------------- ghosts */
/* diagnostics: how many were printed and the arguments of the last one */
extern int g_err_n, g_err_code, g_err_lineno;
extern const char *g_err_line, *g_err_at, *g_err_file;
/* symbol table: the abstract map projected on one arbitrary label g_key */
extern char g_key[TSTR];
extern _Bool g_def;
extern int g_val, g_ins;          /* g_ins: number of insertions */

/* ------------------------------------------------------- spec functions */
_Bool sp_streq(const char *a, const char *b);
int sp_strlen(const char *a);
/* NUL-terminated within a token string */
_Bool sp_term(const char *a);
_Bool sp_eol(char c);
_Bool sp_eot(char c);
_Bool sp_alpha(char c);
_Bool sp_word(char c);
char sp_up(char c);
int sp_digit(char c, int base);
_Bool sp_branch(int m);
_Bool sp_jump(int m);
/* the error codes that come with a message */
_Bool sp_printable(int code);
/* the addressing mode bit of a table column */
int sp_bit(int k);
enum { M_ACC, M_IMP, M_IMM, M_REL, M_ABS, M_ABX, M_ABY, M_IND, M_INX, M_INY, M_ZP, M_ZPX, M_ZPY, M_NONE };
int sp_col(int bit);
int sp_opcode(int m, int bit);
int sp_mnemonic(const char *s);

/* --------------------------------------------------------------- opcode.c */
int is_branch(const enum Mnemonic mnemonic)
__CPROVER_assigns()
__CPROVER_ensures((RET != 0) == sp_branch(mnemonic));

int is_jump(const enum Mnemonic mnemonic)
__CPROVER_assigns()
__CPROVER_ensures((RET != 0) == sp_jump(mnemonic));

_Bool post_bitfield(int m, int r);
int get_addr_bitfield(const enum Mnemonic mnemonic)
__CPROVER_assigns()
__CPROVER_ensures(post_bitfield(mnemonic, RET));

enum Mnemonic str_to_mnemonic(const char *str)
__CPROVER_requires(sp_term(str))
__CPROVER_assigns()
__CPROVER_ensures(str[0] == 0 || RET == sp_mnemonic(str))
__CPROVER_ensures(str[0] != 0 || RET == ILLEGAL_MNEMONIC);

_Bool post_opcode(int m, int bit, int r);
int get_opcode(struct Instruction *instr)
__CPROVER_assigns()
__CPROVER_ensures(post_opcode(instr->mnemonic, instr->addr_bitflag, RET));

void reset_instruction(struct Instruction *instr)
__CPROVER_assigns(*instr)
__CPROVER_ensures(instr->mnemonic == NULL_MNEMONIC && instr->addr_bitfield == 0 && instr->addr_bitflag == 0);

/* ---------------------------------------------------------------- error.c */
void print_error(const char *line, int error_code, const char *bad_char, const char *file_name, int line_num)
__CPROVER_requires(bad_char == NULL || (line != NULL && __CPROVER_POINTER_OBJECT(line) == __CPROVER_POINTER_OBJECT(bad_char) &&
	__CPROVER_POINTER_OFFSET(line) <= __CPROVER_POINTER_OFFSET(bad_char)))
__CPROVER_requires(error_code < 0)
__CPROVER_assigns(g_err_n, g_err_code, g_err_lineno, g_err_line, g_err_at, g_err_file)
__CPROVER_ensures(g_err_n == __CPROVER_old(g_err_n) + 1)
__CPROVER_ensures(g_err_code == error_code && g_err_lineno == line_num)
__CPROVER_ensures(__CPROVER_pointer_equals(g_err_line, (char *)line))
__CPROVER_ensures(__CPROVER_pointer_equals(g_err_at, (char *)bad_char))
__CPROVER_ensures(__CPROVER_pointer_equals(g_err_file, (char *)file_name));

/* ---------------------------------------------------------------- lexer.c */
/* a literal at s: its length, or -1; *val its value, *at the error offset */
int sp_literal(const char *s, unsigned *val, int *at);
_Bool post_lex_literal(const char *s, struct Token *tk, int r);
int lex_literal(const char *literal, struct Token *tk)
__CPROVER_requires(literal[LINE - 1] == 0)
__CPROVER_assigns(tk->type, tk->value, tk->error_char)
__CPROVER_ensures(post_lex_literal(literal, tk, RET));

/* a directive at s (s[0] == '.'): its length, or -1 */
int sp_directive(const char *s, int *type, int *at);
_Bool post_lex_directive(const char *s, struct Token *tk, int r);
int lex_directive(const char *buffer, struct Token *tk)
__CPROVER_requires(buffer[LINE - 1] == 0 && buffer[0] == '.')
__CPROVER_assigns(tk->type, tk->error_char, __CPROVER_object_upto(tk->str, TSTR))
__CPROVER_ensures(post_lex_directive(buffer, tk, RET));

/* a text token at s: its length, or -1 */
int sp_text(const char *s, int *at);
_Bool post_lex_text(const char *s, struct Token *tk, struct Instruction *in, int r, int old_m, int old_f);
int lex_text(const char *buffer, struct Token *tk, struct Instruction *instr)
__CPROVER_requires(buffer[LINE - 1] == 0 && sp_alpha(buffer[0]))
__CPROVER_assigns(tk->type, tk->error_char, __CPROVER_object_upto(tk->str, TSTR), instr->mnemonic, instr->addr_bitfield)
__CPROVER_ensures(post_lex_text(buffer, tk, instr, RET, __CPROVER_old(instr->mnemonic), __CPROVER_old(instr->addr_bitfield)));

/* one token at s */
int sp_single(char c);
_Bool post_lex(const char *s, struct Token *tk, struct Instruction *in, int r, int old_m, int old_f);
/* a token never runs past the end of the line, and its text stays terminated */
_Bool post_lex_shape(const char *s, struct Token *tk, int r);
int lex(const char *buffer, struct Token *tk, struct Instruction *instr)
__CPROVER_requires(buffer[LINE - 1] == 0 && sp_term(tk->str))
__CPROVER_assigns(tk->type, tk->value, tk->error_char, tk->buffer_location, __CPROVER_object_upto(tk->str, TSTR),
	instr->mnemonic, instr->addr_bitfield)
__CPROVER_ensures(post_lex(buffer, tk, instr, RET, __CPROVER_old(instr->mnemonic), __CPROVER_old(instr->addr_bitfield)))
__CPROVER_ensures(post_lex_shape(buffer, tk, RET));
_Bool sp_nonul(const char *s, int n);

#endif
