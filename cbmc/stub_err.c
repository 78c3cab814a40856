/* print_error's contract for callers: one diagnostic with these arguments */
void print_error(const char *line, int error_code, const char *bad_char, const char *file_name, int line_num)
{
	__CPROVER_assert(sp_printable(error_code), "[C11,C12] print_error is given an error that has a message");
	__CPROVER_assert(bad_char == NULL || (line != NULL && __CPROVER_same_object(line, bad_char) && bad_char >= line && bad_char - line < LINE),
		"[C12,C13] print_error is given a position in the line");
	g_err_n++; g_err_code = error_code; g_err_at = bad_char; g_err_line = line; g_err_file = file_name; g_err_lineno = line_num;
}
