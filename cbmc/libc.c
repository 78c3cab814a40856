/* ctype contracts: the argument must be an unsigned char value or EOF */
#define CT_PRE(c) __CPROVER_assert((c) >= -1 && (c) <= 255, "ctype argument is an unsigned char or EOF")
int isalpha(int c) { CT_PRE(c); return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { CT_PRE(c); return c >= '0' && c <= '9'; }
int isalnum(int c) { CT_PRE(c); return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
int isupper(int c) { CT_PRE(c); return c >= 'A' && c <= 'Z'; }
int islower(int c) { CT_PRE(c); return c >= 'a' && c <= 'z'; }
int isspace(int c) { CT_PRE(c); return c == ' ' || (c >= 9 && c <= 13); }
int isblank(int c) { CT_PRE(c); return c == ' ' || c == 9; }
int isxdigit(int c) { CT_PRE(c); return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int toupper(int c) { CT_PRE(c); return c >= 'a' && c <= 'z' ? c - 'a' + 'A' : c; }
int tolower(int c) { CT_PRE(c); return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; }
/* byte copies within a token string, as a loop (CBMC's own model of a copy
 * of symbolic length needs its array theory) */
#ifndef NATIVE_MEMCPY
void *memcpy(void *d, const void *s, __CPROVER_size_t n)
{
	for (__CPROVER_size_t i = 0; i < n; i++)
		((char *)d)[i] = ((const char *)s)[i];
	return d;
}
#endif
static _Bool in_set(char c, const char *set)
{
	for (int j = 0; set[j]; j++)
		if (set[j] == c)
			return 1;
	return 0;
}
__CPROVER_size_t strcspn(const char *s, const char *set)
{
	__CPROVER_size_t i = 0;
	while (s[i] && !in_set(s[i], set))
		i++;
	return i;
}
__CPROVER_size_t strspn(const char *s, const char *set)
{
	__CPROVER_size_t i = 0;
	while (s[i] && in_set(s[i], set))
		i++;
	return i;
}
char *strpbrk(const char *s, const char *set)
{
	for (; *s; s++)
		if (in_set(*s, set))
			return (char *)s;
	return 0;
}
char *strchr(const char *s, int c)
{
	for (;; s++) {
		if (*s == (char)c)
			return (char *)s;
		if (!*s)
			return 0;
	}
}
