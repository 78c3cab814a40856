From d3c14c55031e650da4a1921ebd10fa1bf1f17fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 01/11] fix: reject long literals whose value wraps around

---
 src/lexer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index cfeecb7..c52c358 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -357,8 +357,12 @@ int lex_literal(const char *literal, struct Token *tk)
 	while (*curr) {
 		char_value = (*converter_func)(*curr);
 		if (char_value != ERROR_ILLEGAL_CHAR) {
-			total *= base;
-			total += char_value;
+			// once the literal is too big, stop accumulating so a
+			// long literal cannot wrap around to a legal value
+			if (total <= 0xFFFF) {
+				total *= base;
+				total += char_value;
+			}
 			num_chars++;
 			curr++;
 		} else if (!is_end_of_token(*curr)) {
-- 
2.43.0


From aaf2ff74c95a20e1c1c8815a712070200ceda170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 02/11] fix: reject tokens after an indexed operand

---
 src/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 2a2bc35..e81a67a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -111,8 +111,11 @@ int parse_instr_tree(struct Lexer *lexer, int index)
 			// OPERAND,X
 			// OPERAND,Y
 			if (seq[index]->type == TOKEN_X_REGISTER ||
-			    seq[index]->type == TOKEN_Y_REGISTER)
-				return PARSER_SUCCESS;
+			    seq[index]->type == TOKEN_Y_REGISTER) {
+				index++;
+				if (seq[index]->type == TOKEN_NULL)
+					return PARSER_SUCCESS;
+			}
 		}
 	}
 	// #
-- 
2.43.0


From bd55ab74f4939e0284bd9e08e43a136a4dbd12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 03/11] fix: reject JMP with an index register on a forward
 reference

---
 src/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index e81a67a..8250e3b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -564,7 +564,8 @@ int parse_forward_ref_addr_mode(struct Lexer *lexer, struct Instruction *instr)
 		instr->addr_bitflag = addr_mode & ADDR_MODE_RELATIVE;
 	} else if (instr->mnemonic == JMP) {
 		// JMP has two modes, so we AND with the FIELD!!!
-		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD;
+		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD &
+		                      instr->addr_bitfield;
 	} else if (instr->mnemonic == JSR) {
 		// JSR has only one mode
 		instr->addr_bitflag = addr_mode & ADDR_MODE_ABSOLUTE;
-- 
2.43.0


From 1e51e82bca4590c00a104dacb6826c41ccb82115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 04/11] fix: do not write forward reference placeholders at a
 stale file position

---
 src/main.c | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/main.c b/src/main.c
index a2dcd8f..18b2f71 100644
--- a/src/main.c
+++ b/src/main.c
@@ -217,10 +217,6 @@ int main(int argc, char *argv[])
 		                               symtab);
 		if (IS_ERROR(operand_status))
 			ABORT_ASSEMBLY();
-		else if (operand_status == BRANCH_FORWARD_REFERENCE)
-			written_bytes = 2;
-		else if (operand_status == JUMP_FORWARD_REFERENCE)
-			written_bytes = 3;
 
 		return_code = parse_addr_mode(lexer, instr, operand,
 		                             operand_status);
@@ -232,12 +228,7 @@ int main(int argc, char *argv[])
 				ABORT_ASSEMBLY();
 			if (IS_ERROR(add_forward_ref(unresolved, ref)))
 				ABORT_ASSEMBLY();
-
-			// write dummy bytes
-			fputc(0x00, outf);
-			fputc(0x00, outf);
-			if (written_bytes == 3)
-				fputc(0x00, outf);
+			// generate_code() writes the placeholder bytes at pc
 		} else if (IS_ERROR(return_code)) {
 			ABORT_ASSEMBLY();
 		}
-- 
2.43.0


From 46b9585a8f89723e55fd672e8c8c9189bff13e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 05/11] fix: reject branch literals which do not fit in one
 byte

---
 src/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 8250e3b..7f3eca3 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -639,7 +639,9 @@ int parse_addr_mode(struct Lexer *lexer, struct Instruction *instr,
 		// see comment above in parse_label_operand()
 		// operand value might be an absolute address, but a branch
 		// instruction always has an operand that fits in 1 byte
-		if (!is_branch(instr->mnemonic))
+		// a literal is the branch offset itself, so it must fit too
+		if (!is_branch(instr->mnemonic) ||
+		    operand->type == TOKEN_LITERAL)
 			addr_mode = ABSOLUTE_FIELD;
 		else
 			addr_mode = ZERO_PAGE_FIELD;
-- 
2.43.0


From 5a44533e9599497cc9bc9c3578a23b1be0cf416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 06/11] fix: report code and labels placed beyond address $FFFF

---
 src/error.c  | 4 ++++
 src/error.h  | 1 +
 src/main.c   | 8 ++++++++
 src/parser.c | 4 ++++
 4 files changed, 17 insertions(+)

diff --git a/src/error.c b/src/error.c
index 4bc501b..f301fe3 100644
--- a/src/error.c
+++ b/src/error.c
@@ -29,6 +29,7 @@ printed, which is aligned to the error in the source line.
 		ERROR_UNKNOWN
 		ERROR_ILLEGAL_ADDRESSING_MODE
 		ERROR_TOO_BIG_OFFSET
+		ERROR_ADDRESS_OUT_OF_RANGE
 */
 void print_error(const char *line, int error_code, const char *bad_char,
                  const char *file_name, int line_num)
@@ -86,6 +87,9 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	case ERROR_ILLEGAL_BASE:
 		printf("ERROR: illegal base\n");
 		break;
+	case ERROR_ADDRESS_OUT_OF_RANGE:
+		printf("ERROR: address exceeds 2 bytes\n");
+		break;
 	default:
 		return;
 	}
diff --git a/src/error.h b/src/error.h
index 6fe0355..227b962 100644
--- a/src/error.h
+++ b/src/error.h
@@ -39,6 +39,7 @@ Error codes used by the assembler. Also a prototype to print error messages.
 #define ERROR_MISSING_LABEL_DEFINITION  -18
 #define ERROR_ILLEGAL_DIRECTIVE         -19
 #define ERROR_ILLEGAL_BASE              -20
+#define ERROR_ADDRESS_OUT_OF_RANGE      -21
 /*
 ;       ;       ;       ;       ;       ;
 */
diff --git a/src/main.c b/src/main.c
index 18b2f71..391a2cc 100644
--- a/src/main.c
+++ b/src/main.c
@@ -105,6 +105,9 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 
 #define MAX_BUFFER_SIZE 128
 
+// last location of the 6502 address space
+#define MAX_ADDRESS 0xFFFF
+
 /* abort_gaia()
 	@inf            source file
 	@outf           assembled binary file
@@ -244,6 +247,11 @@ int main(int argc, char *argv[])
 		}
 		if (IS_ERROR(written_bytes))
 			ABORT_ASSEMBLY();
+		if (pc + written_bytes > MAX_ADDRESS + 1) {
+			print_error(buffer, ERROR_ADDRESS_OUT_OF_RANGE, NULL,
+			            args.src_file, line_num);
+			ABORT_ASSEMBLY();
+		}
 
 		line_num++;
 		pc += written_bytes;
diff --git a/src/parser.c b/src/parser.c
index 7f3eca3..ba5668b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -324,6 +324,10 @@ int parse_label_declaration(struct Lexer *lexer, struct SymbolTable *symtab,
 			            lexer->error_tk->buffer_location,
 			            lexer->file_name, lexer->line_num);
 			return ERROR_LABEL_REDEFINITION;
+		} else if (pc > 0xFFFF) {
+			print_error(lexer->line, ERROR_ADDRESS_OUT_OF_RANGE,
+			            NULL, lexer->file_name, lexer->line_num);
+			return ERROR_ADDRESS_OUT_OF_RANGE;
 		} else {
 			label->value = pc;
 			return insert_symbol(symtab, label->str, label->value);
-- 
2.43.0


From 77c43825a6f00989dfbd97980f3d06cedebc4368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 07/11] fix: report a line with too many tokens

---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 391a2cc..15f88f8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -190,6 +190,9 @@ int main(int argc, char *argv[])
 	int total_bytes = 0;
 	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
+		// the parser pinpoints and reports the first bad token
+		if (return_code == ERROR_TOO_MANY_TOKENS)
+			parse_line(lexer);
 		if (IS_ERROR(return_code))
 			ABORT_ASSEMBLY();
 
-- 
2.43.0


From 091497b5f0b4e5f8ca0ef04c28da968101fcb97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 08/11] fix: do not assemble the tail of a long line as another
 line

---
 src/error.c |  7 ++++++-
 src/error.h |  1 +
 src/main.c  | 44 +++++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/error.c b/src/error.c
index f301fe3..0a144e3 100644
--- a/src/error.c
+++ b/src/error.c
@@ -30,6 +30,7 @@ printed, which is aligned to the error in the source line.
 		ERROR_ILLEGAL_ADDRESSING_MODE
 		ERROR_TOO_BIG_OFFSET
 		ERROR_ADDRESS_OUT_OF_RANGE
+		ERROR_TOO_LONG_LINE
 */
 void print_error(const char *line, int error_code, const char *bad_char,
                  const char *file_name, int line_num)
@@ -90,6 +91,9 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	case ERROR_ADDRESS_OUT_OF_RANGE:
 		printf("ERROR: address exceeds 2 bytes\n");
 		break;
+	case ERROR_TOO_LONG_LINE:
+		printf("ERROR: code exceeds 127 characters on one line\n");
+		break;
 	default:
 		return;
 	}
@@ -101,7 +105,8 @@ void print_error(const char *line, int error_code, const char *bad_char,
 
 	// skip trailing whitespace
 	const char *end = line + strlen(line) - 1;
-	while (*end == ' ' || *end == '\t' || *end == '\n' || *end == EOF)
+	while (end > line && (*end == ' ' || *end == '\t' || *end == '\n' ||
+	                      *end == EOF))
 		end--;
 	for (const char *start = line; start <= end; start++)
 		putchar(*start);
diff --git a/src/error.h b/src/error.h
index 227b962..c2be1af 100644
--- a/src/error.h
+++ b/src/error.h
@@ -40,6 +40,7 @@ Error codes used by the assembler. Also a prototype to print error messages.
 #define ERROR_ILLEGAL_DIRECTIVE         -19
 #define ERROR_ILLEGAL_BASE              -20
 #define ERROR_ADDRESS_OUT_OF_RANGE      -21
+#define ERROR_TOO_LONG_LINE             -22
 /*
 ;       ;       ;       ;       ;       ;
 */
diff --git a/src/main.c b/src/main.c
index 15f88f8..01ab795 100644
--- a/src/main.c
+++ b/src/main.c
@@ -7,6 +7,7 @@ The Gaia assembler for 6502 Assembly.
 #include <argp.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "forward_reference.h"
@@ -143,6 +144,41 @@ int abort_gaia(FILE *inf, FILE *outf, struct Lexer *lexer, struct Token *tk,
 	return EXIT_FAILURE;
 }
 
+/* read_line()
+	@buffer         array of MAX_BUFFER_SIZE chars to store the line
+	@inf            source file
+
+	@return         1 if a line was read, 0 if there are no more lines, or
+	                error code
+
+	Read the next source line. If the line does not fit in @buffer, the rest
+	is skipped so it isn't mistaken for another line. Only whitespace and
+	comments may be skipped.
+*/
+static int read_line(char *buffer, FILE *inf)
+{
+	// fgets() overwrites this char only if the line fills the buffer
+	buffer[MAX_BUFFER_SIZE - 1] = '\n';
+	if (!fgets(buffer, MAX_BUFFER_SIZE, inf))
+		return 0;
+	if (buffer[MAX_BUFFER_SIZE - 1] != '\0' ||
+	    buffer[MAX_BUFFER_SIZE - 2] == '\n')
+		return 1;
+
+	// same chars that end a line for the lexer, including the terminator
+	const char end_chars[] = {';', '\r', EOF, '\0'};
+	int is_end = strcspn(buffer, end_chars) < MAX_BUFFER_SIZE - 1;
+	int has_code = 0;
+	int c;
+	while ((c = fgetc(inf)) != EOF && c != '\n') {
+		if (strchr(end_chars, c))
+			is_end = 1;
+		else if (c != ' ' && c != '\t' && !is_end)
+			has_code = 1;
+	}
+	return has_code ? ERROR_TOO_LONG_LINE : 1;
+}
+
 int main(int argc, char *argv[])
 {
 	struct Arguments args = {.src_file = NULL, .out_file = "a.out"};//,
@@ -188,7 +224,13 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	int total_bytes = 0;
-	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
+	while ((return_code = read_line(buffer, inf))) {
+		if (IS_ERROR(return_code)) {
+			print_error(buffer, return_code, NULL, args.src_file,
+			            line_num);
+			ABORT_ASSEMBLY();
+		}
+
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		// the parser pinpoints and reports the first bad token
 		if (return_code == ERROR_TOO_MANY_TOKENS)
-- 
2.43.0


From 5db1a07dcec800866bca73d935e95d8a11f0f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 09/11] fix: report errors while reading the source or writing
 the binary

---
 src/error.c |  8 ++++++++
 src/error.h |  2 ++
 src/main.c  | 21 +++++++++++++++++++--
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/error.c b/src/error.c
index 0a144e3..fb0efa0 100644
--- a/src/error.c
+++ b/src/error.c
@@ -24,6 +24,8 @@ printed, which is aligned to the error in the source line.
 		ERROR_MEMORY_ALLOCATION_FAIL
 		ERROR_FILE_OPEN_FAIL
 		ERROR_BINARY_FILE_CREATION_FAIL
+		ERROR_FILE_READ_FAIL
+		ERROR_BINARY_FILE_WRITE_FAIL
 	These cases should pass in NULL for @line and @bad_char.
 	The following do not print the error arrow:
 		ERROR_UNKNOWN
@@ -94,6 +96,12 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	case ERROR_TOO_LONG_LINE:
 		printf("ERROR: code exceeds 127 characters on one line\n");
 		break;
+	case ERROR_FILE_READ_FAIL:
+		printf("ERROR: %s could not be read\n", file_name);
+		break;
+	case ERROR_BINARY_FILE_WRITE_FAIL:
+		printf("ERROR: assembled binary file could not be written\n");
+		break;
 	default:
 		return;
 	}
diff --git a/src/error.h b/src/error.h
index c2be1af..254b60e 100644
--- a/src/error.h
+++ b/src/error.h
@@ -41,6 +41,8 @@ Error codes used by the assembler. Also a prototype to print error messages.
 #define ERROR_ILLEGAL_BASE              -20
 #define ERROR_ADDRESS_OUT_OF_RANGE      -21
 #define ERROR_TOO_LONG_LINE             -22
+#define ERROR_FILE_READ_FAIL            -23
+#define ERROR_BINARY_FILE_WRITE_FAIL    -24
 /*
 ;       ;       ;       ;       ;       ;
 */
diff --git a/src/main.c b/src/main.c
index 01ab795..6a58b3b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -208,7 +208,8 @@ int main(int argc, char *argv[])
 		ABORT_ASSEMBLY();
 	}
 	outf = fopen(args.out_file, "wb");
-	if (!outf) {
+	// bytes are placed by seeking, e.g. a pipe can't be used
+	if (!outf || fseek(outf, 0, SEEK_SET)) {
 		print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
 		            args.src_file, -1);
 		ABORT_ASSEMBLY();
@@ -303,6 +304,12 @@ int main(int argc, char *argv[])
 		total_bytes += written_bytes;
 	}
 
+	if (ferror(inf)) {
+		print_error(NULL, ERROR_FILE_READ_FAIL, NULL, args.src_file,
+		            -1);
+		ABORT_ASSEMBLY();
+	}
+
 	int dest_pc;
 	for (int i = 0; i < unresolved->curr; i++) {
 		ref = unresolved->refs[i];
@@ -320,12 +327,22 @@ int main(int argc, char *argv[])
 			ABORT_ASSEMBLY();
 	}
 
+	// fclose() writes any bytes that are still buffered
+	int write_error = ferror(outf);
+	if (fclose(outf))
+		write_error = 1;
+	outf = NULL;
+	if (write_error) {
+		print_error(NULL, ERROR_BINARY_FILE_WRITE_FAIL, NULL,
+		            args.src_file, -1);
+		ABORT_ASSEMBLY();
+	}
+
 	printf("Assembly successful.\n");
 	printf("%i (0x%04x) bytes assembled.\n", total_bytes, total_bytes);
 	printf("%i symbols.\n", symtab->count);
 
 	fclose(inf);
-	fclose(outf);
 	destroy_lexer(lexer);
 	destroy_token(tk);
 	destroy_instruction(instr);
-- 
2.43.0


From 34de82468f64ef8304353b946b7c3e0848af5e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 10/11] fix: keep the symbol table load factor from overflowing

---
 src/symbol_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_table.c b/src/symbol_table.c
index dc1237b..67328e8 100644
--- a/src/symbol_table.c
+++ b/src/symbol_table.c
@@ -167,7 +167,7 @@ int insert_symbol(struct SymbolTable *symtab, const char *label,
 {
 	// check load factor first
 	// if you insert first then you might have to hash it again -- waste!
-	int load = ((symtab->count + 1) * 100) / symtab->size;
+	long long load = ((symtab->count + 1) * 100LL) / symtab->size;
 	if (load > 50) {
 		if (!resize_symbols(symtab))
 			return ERROR_MEMORY_ALLOCATION_FAIL;
-- 
2.43.0


From ae455a5011c1e47bc3c73285a3a40f471bb7efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 11/11] fix: do not pass negative chars to the ctype functions

---
 src/lexer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index c52c358..3abf5e5 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -437,7 +437,7 @@ int lex_directive(const char *buffer, struct Token *tk)
 		c = buffer[num_chars];
 		if (is_end_of_token(c)) {
 			break;
-		} else if (!isalpha(c)) {
+		} else if (!isalpha((unsigned char)c)) {
 			tk->error_char = &buffer[num_chars];
 			return ERROR_ILLEGAL_CHAR;
 		}
@@ -478,7 +478,7 @@ static int is_valid_token_char(const char c)
 {
 	// isalnum() is case-insensitive, although lex_text()
 	// guarantees everything is converted to uppercase
-	return isalnum(c) || c == '_';
+	return isalnum((unsigned char)c) || c == '_';
 }
 
 /* lex_text()
@@ -584,7 +584,7 @@ int lex(const char *buffer, struct Token *tk, struct Instruction *instr)
 		return 1;
 	}
 
-	if (isalpha(c))
+	if (isalpha((unsigned char)c))
 		return lex_text(buffer, tk, instr);
 	else if (c == '$' || c == '%' || (c >= '0' && c <= '9'))
 		return lex_literal(buffer, tk);
-- 
2.43.0

