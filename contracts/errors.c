/* Contracts: error codes (C13): zerrorEncode, zerrorDecode, zerrorSeverity, zerrorEncodeHigh, zerrorUpdate, zisError. */
#include "hv.h"
#include <limits.h>
#include "heclib7.h"
#include "zdssMessages.h"
#include "zdssVals.h"
#include "hecdssInternal.h"
#if !defined(HV_NATIVE)
char *zgetFunctionName(int id) { static char t[8]; return t; }
int zmessageLevel(long long *ifltab, int m, int l) { return nondet_int() & 1; }
void zmessageDebugInt(long long *ifltab, int f, const char *a, int v) {}
void zmessageDebug(long long *ifltab, int f, const char *a, const char *b) {}
char *zmessConcat2(char *m, size_t n, const char *a, const char *b) { return m; }
int zmessageInterface(long long *ifltab, const char *m, int t) { return 0; }
void zmessageFlush(long long *ifltab) {}
#endif
/* an obligation, then a fact */
#ifdef HV_NATIVE
#define LEMMA(l, c) ENS(l, c)
#else
#define LEMMA(l, c) do { ENS(l, c); __CPROVER_assume(c); } while (0)
#endif
static long long ift[16];
void h_encode(void)
{
	IN_R(int, sev, 0, 20); IN_R(int, high, 0, 99); IN_R(int, low, 0, 99); IN_R(int, err, 0, 99); IN(int, st);
	int h, l, e, s;
	int c = zerrorEncode(sev, high, low, err, st);
	ENS("an error code is negative", c < 0 || (c == 0 && sev + high + low + err == 0));
	int v = zerrorDecode(c, &h, &l, &e, &s);
	ENS("severity, functions and error number come back", v == sev && h == high && l == low && e == err && zerrorSeverity(c) == sev);
	ENS("the status comes back", st < -9 || st > 99 ? s == 0 : s == (st < 0 ? -st : st));
	COVER("encode");
}
void h_update(void)
{
	IN_R(int, sev, 0, 20); IN_R(int, high, 0, 99); IN_R(int, low, 0, 99); IN_R(int, err, 0, 99); IN_R(int, st, 0, 99); IN_R(int, id, 0, 99);
	int h, l, e, s;
	int c = -(sev * 100000000 + high * 1000000 + low * 10000 + err * 100 + st);
	REQ(c <= -10);
	int was = zisError(c);
	ENS("severe codes are errors", was == (sev >= 3));
	LEMMA("the code without its low parts", -c / 1000000 == sev * 100 + high);
	LEMMA("the high function in the code", (-c / 1000000) % 100 == high);
	int r = zerrorUpdate(ift, c, id);
	LEMMA("the code with the calling function", r == -(sev * 100000000 + (id ? id : high) * 1000000 + low * 10000 + err * 100 + st));
	ENS("still an error code", r <= -10);
	int v = zerrorDecode(r, &h, &l, &e, &s);
	ENS("only the calling function changes", v == sev && l == low && e == err && s == st && h == (id ? id : high));
	ENS("an error stays an error", zisError(r) == was);
	COVER("update");
}
void h_status(void)
{
	IN_R(int, c, -9, INT_MAX); IN_R(int, id, 0, 99);
	ENS("a plain status stays", zerrorUpdate(ift, c, id) == c);
	ENS("plain statuses below -1 are errors", zisError(c) == (c < -1));
	COVER("status");
}
