int g_err_n, g_err_code, g_err_lineno;
const char *g_err_line, *g_err_at, *g_err_file;
char g_key[TSTR];
_Bool g_def;
int g_val, g_ins;
