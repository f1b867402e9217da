/* Trusted model of snprintf for the formats the functions under contract use (%d %0Nd %Nd %ld %lld %s %c %%), and atoi.
 * Only used in the verifier run; native runs use libc. */
#ifndef HV_NATIVE
#include <stdarg.h>
#include <stddef.h>
int snprintf(char *b, size_t n, const char *f, ...)
{
	va_list ap; size_t k = 0; char t[24];
	va_start(ap, f);
	for (int i = 0; f[i]; i++) {
		if (f[i] != '%') { if (k + 1 < n) b[k] = f[i]; k++; continue; }
		i++;
		int zero = 0, w = 0, lg = 0;
		if (f[i] == '0') { zero = 1; i++; }
		while (f[i] >= '0' && f[i] <= '9') { w = w * 10 + f[i] - '0'; i++; }
		while (f[i] == 'l') { lg++; i++; }
		if (f[i] == 's') { const char *s = va_arg(ap, char *); for (int j = 0; s[j]; j++) { if (k + 1 < n) b[k] = s[j]; k++; } }
		else if (f[i] == 'c') { int c = va_arg(ap, int); if (k + 1 < n) b[k] = (char)c; k++; }
		else if (f[i] == '%') { if (k + 1 < n) b[k] = '%'; k++; }
		else {
			long long v = lg ? va_arg(ap, long long) : (long long)va_arg(ap, int);
			int neg = v < 0, m = 0; unsigned long long u = neg ? 0ULL - (unsigned long long)v : (unsigned long long)v;
#ifdef SNPRINTF_INT
			unsigned ui = (unsigned)u;
			do { t[m++] = '0' + ui % 10; ui /= 10; } while (ui && m < SNPRINTF_INT);
#else
			do { t[m++] = '0' + u % 10; u /= 10; } while (u);
#endif
			int len = m + neg;
			if (!zero) for (; len < w; len++) { if (k + 1 < n) b[k] = ' '; k++; }
			if (neg) { if (k + 1 < n) b[k] = '-'; k++; }
			if (zero) for (; len < w; len++) { if (k + 1 < n) b[k] = '0'; k++; }
			while (m) { m--; if (k + 1 < n) b[k] = t[m]; k++; }
		}
	}
	if (n) b[k < n ? k : n - 1] = 0;
	va_end(ap);
	return (int)k;
}
int atoi(const char *s)
{
	int i = 0, neg = 0; int v = 0;
	while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) i++;
	if (s[i] == '-') { neg = 1; i++; } else if (s[i] == '+') i++;
	for (; s[i] >= '0' && s[i] <= '9'; i++) v = v * 10 + (s[i] - '0');
	return neg ? -v : v;
}
char *strstr(const char *h, const char *n)
{
	for (int i = 0; ; i++) {
		int j = 0;
		while (n[j] && h[i + j] == n[j]) j++;
		if (!n[j]) return (char *)(h + i);
		if (!h[i]) return 0;
	}
}
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
size_t strcspn(const char *s, const char *r)
{
	size_t i = 0;
	for (; s[i]; i++) for (int j = 0; r[j]; j++) if (s[i] == r[j]) return i;
	return i;
}
size_t strspn(const char *s, const char *r)
{
	size_t i = 0;
	for (; s[i]; i++) { int in = 0; for (int j = 0; r[j]; j++) if (s[i] == r[j]) in = 1; if (!in) break; }
	return i;
}
char *strpbrk(const char *s, const char *r) { size_t i = strcspn(s, r); return s[i] ? (char *)(s + i) : 0; }
#endif
