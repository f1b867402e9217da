/* Contracts: finding a pathname whatever its letter case (C15): zhash, zstringCompare, zpathnameCompare, zisaCollection. */
#include "hv.h"
#include <stdlib.h>
#include <string.h>
#include "heclib7.h"
#include "zdssKeys.h"
#include "zdssVals.h"
#include "hecdssInternal.h"
#include "zstubs.h"
#if defined(HV_NATIVE)
#define __CPROVER_assume(x) ((void)0)
#define CAP 392
#elif defined(HV_T2)
#define CAP 14
#else
#define CAP 392
#endif
#include "ghost_hash.h"
int gI, gN, gJ, gAll; long long *gFold; int *gX, *gT;
#ifdef HASH
static long long ift[4], hdr[4];
#if !defined(HV_NATIVE) && !defined(HV_T2)
/* C library: frexp of a positive int: exponent e with 2^(e-1) <= x < 2^e, one half for a power of two */
double frexp(double x, int *e)
{
	int m = (int)x;
	__CPROVER_assert(m >= 1 && m <= 100000, "frexp of a positive int");
	int b = nondet_int();
	__CPROVER_assume(b >= 1 && b <= 17 && (1 << (b - 1)) <= m && m < (1 << b));
	*e = b;
	return m == (1 << (b - 1)) ? 0.5 : 0.75;
}
int snprintf(char *b, size_t n, const char *f, ...) { __CPROVER_assert(__CPROVER_w_ok(b, n) && n > 0, "room for the text"); b[0] = 0; return 0; }
/* contract of zcollectionsPath (unit zisaCollection): reads the text only */
int zcollectionsPath(char *p, size_t n) { __CPROVER_assert(n >= 1 && n <= CAP && __CPROVER_r_ok(p, n), "a text"); return nondet_int() != 0; }
#endif
static int bitsof(int m) { int b = 1; for (int i = 1; i < 17; i++) if (m > (1 << i)) b = i + 1; return b; }
void h_hash(void)
{
	IN_R(int, n, 0, CAP - 1); IN_R(int, mh, 1, 100000); IN_R(int, gi, 0, CAP + 7);
#ifdef MH
	mh = MH;
#endif
	zdssKeys.kfileHeader = 1; zdssFileKeys.kmaxHash = 1; zdssFileKeys.kdetune = 2;
	ift[1] = (long long)hdr; hdr[1] = mh; hdr[2] = 0;
	char *o = malloc(CAP);
	REQ(o != 0);
	char *p = o + CAP - n;
	REQ(gi < n + 8);
	gI = gi; gN = n;
	int ib = bitsof(mh), nt = ((n * 8 - 1) / ib + 1), th; long long ph;
	nt = (nt * ib - 1) / 8 + 1;
	gFold = malloc((CAP + 2) * sizeof(long long)); gX = malloc((8 * CAP + 80) * sizeof(int)); gT = malloc((8 * CAP + 80) * sizeof(int));
	REQ(gFold && gX && gT);
#if defined(HV_NATIVE) || defined(HV_T2)
	IN_TEXT(t, CAP, "/AaZz09|@[`{~ -");
	for (int i = 0; i < n; i++) p[i] = t[i];
	gFold[0] = 0;
	for (int i = 0; i < n; i++) gFold[i + 1] = (long long)(31 * (unsigned long long)gFold[i] + NORM(p[i]));
	{ int x = NCH(p, 0, n), f = 0;
	  for (int k = 0; k < 8 * nt; k++) { x *= 2; if ((k + 1) % ib == 0) { f ^= x / 256; x %= 256; } if ((k + 1) % 8 == 0 && k + 1 < 8 * nt) x += NCH(p, (k + 1) / 8, n); gT[k + 1] = f; } }
	gT[0] = 0;
#else
	REQ(gFold[0] == 0 && gT[0] == 0);
#endif
	zhash(ift, p, n, &th, &ph);
	ENS("pathname hash folds the characters without their case", ph == (gFold[n] ? gFold[n] : 1));
	ENS("not zero, which marks a free entry", ph != 0);
	ENS("table hash folds the characters without their case", th == gT[8 * nt] % mh);
	ENS("inside the hash table", th >= 0 && th < mh);
	COVER("hash");
}
#endif
#ifdef CMP
static char *a_, *b_; static int r_, want_;
#if !defined(HV_NATIVE) && !defined(HV_T2)
/* contract of charLong (C10): the bytes of the longs, here seen through GLONG_AT */
int charLong(void *from, void *to, int n, int len, int zero, int fill)
{
	__CPROVER_assert(n >= 1 && n <= len && __CPROVER_r_ok(from, n) && __CPROVER_w_ok(to, len), "requires room");
	__CPROVER_havoc_object(to);
	return 0;
}
#endif
static void texts(void)
{
	IN_R(int, n, 0, CAP); IN_R(int, j, 0, CAP); IN_R(int, all, 0, 1);
	REQ(all || j < n);
	a_ = malloc(CAP); b_ = malloc(CAP);
	REQ(a_ && b_);
	a_ += CAP - n; b_ += CAP - n;
	gN = n; gJ = j; gAll = all;
#if defined(HV_NATIVE) || defined(HV_T2)
	IN_TEXT(t, CAP, "AaZz@[`{/|09"); IN_TEXT(f, CAP, "01");
	for (int i = 0; i < n; i++) { a_[i] = t[i] ? t[i] : 'x'; int u = UP(a_[i]); b_[i] = (f[i] & 1) && u >= 'A' && u <= 'Z' ? a_[i] ^ 32 : a_[i]; }
	if (!all) { IN(char, d); REQ(d && UP(d) != UP(a_[j])); b_[j] = d; }
#else
	if (!all) REQ(UP(a_[j]) != UP(b_[j]));
#endif
}
void h_string(void)
{
	texts();
	int r = zstringCompare(a_, b_, (size_t)gN);
	ENS("same exactly when all characters agree but for case", r == gAll);
	COVER("string");
}
void h_path(void)
{
	texts();
	REQ(gN >= 1);
	int r = zpathnameCompare(a_, (long long *)b_, (size_t)gN);
	ENS("same exactly when all characters agree but for case", r == gAll);
	COVER("path");
}
#endif
void h_coll(void)
{
	IN_R(int, n, 0, CAP); IN_R(int, gi, 0, CAP - 1); IN_R(char, c, -128, 127);
	char *o = malloc(CAP);
	REQ(o != 0);
	char *p = o + CAP - n;
#if defined(HV_NATIVE) || defined(HV_T2)
	IN_TEXT(t, CAP, "//Cc:|||0A");
	for (int i = 0; i < n; i++) p[i] = t[i];
#endif
	if (gi < n) p[gi] = c;
	int r = zisaCollection(p, (size_t)n);
	if (gi < n) ENS("the text is as it was", p[gi] == c);
	ENS("start of an F part C:...|", r == 0 || (r >= 6 && r + 1 < n && p[r - 1] == '/' && UP(p[r]) == 'C' && p[r + 1] == ':'));
	COVER("coll");
}
