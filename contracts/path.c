/* Contracts: pathname parts (C14): zpathnamePartLengths, zpathnamePartPositions, zpathnameGetPart, zpathnameSetPart, zpathnameForm, zpathnameAddPart, zpathnameClean */
#include "hv.h"
#include <string.h>
#include <stdlib.h>
#include "heclib.h"
#include "hecdssInternal.h"
#ifdef HV_NATIVE
#include "lib/ghost_path.h"
#endif
#ifdef HV_NATIVE
#undef LOOPS
#undef CAP
#define __CPROVER_assume(x) ((void)0)
#define LMAX 130
#endif
#ifndef CAP
#define CAP 394
#endif
#ifndef LMAX
#define LMAX CAP
#endif
#ifndef PART
#define PART 129
#endif
#define AL "AB c-_01/*"
/* a pathname of six parts: slashes exactly before, between and after the parts */
int gP[7];
#define P_ gP
/* ghosts: one character (gJ of part gM) before and after */
int gJ, gM, gK, gNl, gAt0, gAt1, gDiff, gA, gE, gN, gI, gC0, gT, *gG, *gS; char gChar0, gSrc0, gBef; const char *gNew;
static int L_[6];
#ifdef LOOPS
static char *p_;
#else
static char p_[CAP];
#endif
static void mkpath(void)
{
	int s = 1;
	P_[0] = 1;
	for (int i = 0; i < 6; i++) { IN_R(int, len, 0, LMAX); L_[i] = len; s += len + 1; REQ(s < CAP); P_[i + 1] = s; }
#ifdef LOOPS
	p_ = malloc(CAP);
	REQ(p_ != 0);
	return;   /* the text satisfies GPATH_AT at every index (instantiated where it is read) */
#else
	IN_TEXT(t, CAP, AL);
	for (int i = 0; i < CAP; i++) {
		char c = t[i] == '/' || t[i] == 0 ? 'x' : t[i];
		int sl = 0;
		for (int k = 0; k < 7; k++) sl |= i == P_[k] - 1;
		p_[i] = sl ? '/' : i == P_[6] ? 0 : c;
	}
#endif
}
#if defined(LOOPS) && !defined(HV_NATIVE) && !defined(HV_T2)
/* length of the texts in play (libc strlen, replaced by its contract) */
static const char *gText; static int gTextLen;
size_t strlen(const char *s)
{
	if (__CPROVER_same_object(s, p_)) { __CPROVER_assert(s - p_ >= 0 && s - p_ <= P_[6], "strlen inside the pathname"); return (size_t)(P_[6] - (s - p_)); }
	__CPROVER_assert(s == gText, "strlen of a known text");
	return (size_t)gTextLen;
}
#endif
#if !defined(HV_NATIVE) && !defined(HV_T2)
#ifdef LEN_STUB
/* contract of zpathnamePartLengths for a pathname of six parts (unit partLengths) */
int zpathnamePartLengths(const char *pathname, size_t n, int lengths[], int dim)
{
	__CPROVER_assert(dim == 6 && n == (size_t)P_[6], "requires room for six lengths, the whole pathname");
	for (int i = 0; i < 6; i++) lengths[i] = L_[i];
	return 6;
}
#endif
#ifdef POS_STUB
/* contract of zpathnamePartPositions for a pathname of six parts (unit partPositions) */
int zpathnamePartPositions(const char *pathname, size_t n, int positions[], int dim)
{
	__CPROVER_assert(dim == 7, "requires room for seven positions");
	__CPROVER_assert(n == (size_t)P_[6], "requires the whole pathname");
	for (int i = 0; i < 7; i++) positions[i] = P_[i];
	return 7;
}
#endif
#endif
void h_lengths(void)
{
	mkpath();
	int len[6];
	int r = zpathnamePartLengths(p_, (size_t)P_[6], len, 6);
	ENS("six parts", r == 6);
	for (int i = 0; i < 6; i++) ENS("length of each part", len[i] == L_[i]);
	COVER("lengths");
}
void h_positions(void)
{
	mkpath();
	int pos[7];
	int r = zpathnamePartPositions(p_, (size_t)P_[6], pos, 7);
	ENS("seven positions", r == 7);
	for (int i = 0; i < 7; i++) ENS("parts start after their slash", pos[i] == P_[i]);
	COVER("positions");
}
/* any text at all: nothing outside is read or written, an incomplete pathname is never taken for a complete one */
void h_anytext(void)
{
	IN_R(int, n, 0, CAP - 1); IN_TEXT(s, CAP, "/A");
	int ns = 0;
	for (int i = 0; i < CAP; i++) if (i && i < n && s[i] == '/') ns++;
	int pos[7];
	int r = zpathnamePartPositions(s, (size_t)n, pos, 7);
	ENS("seven positions only for six or more parts", (r == 7) == (ns >= 6));
	COVER("anytext");
}
void h_get(void)
{
	mkpath();
	IN_R(int, k, 1, 6); IN_R(int, j, 0, PART - 1); IN_R(int, size, 1, PART);
	char *buf = malloc(PART);
	REQ(buf != 0);
	char *part = buf + PART - size;      /* the buffer ends where the object ends */
	int L = L_[k - 1] < PART ? L_[k - 1] : PART - 1, want = L < size ? L : size - 1;
	REQ(p_[P_[6]] == 0);
	gJ = j < want ? j : -1;
	gSrc0 = p_[P_[k - 1] + (j < want ? j : 0)];
	int r = zpathnameGetPart(p_, k, part, (size_t)size);
	ENS("length of the part", r == L);
	if (j < want) ENS("characters of the part", part[j] == gSrc0);
	ENS("terminated, inside the buffer", part[want] == 0);
	COVER("get");
}
void h_get_any(void)
{
	IN(int, k); IN_TEXT(t, 16, "/A"); t[15] = 0;
	char part[PART];
	int r = zpathnameGetPart(t, k, part, sizeof part);
	if (k < 1 || k > 6) ENS("refused", r == STATUS_NOT_OKAY && part[0] == 0);
	else ENS("a length", r >= 0 && r < 16 && part[r] == 0);
	COVER("get_any");
}
void h_set(void)
{
	mkpath();
	IN_R(int, k, 1, 6); IN_R(int, nl, 0, PART - 1); IN_R(int, size, 1, CAP); IN_R(int, m, 1, 6); IN_R(int, j, 0, CAP - 1);
	REQ(size > P_[6]);
#ifdef LOOPS
	char *np = malloc(PART), *s = p_;
	REQ(np != 0);
	gText = np; gTextLen = nl;
#else
	IN_TEXT(np, PART, "AB *");
	for (int i = 0; i < PART; i++) if (np[i] == 0 || np[i] == '/') np[i] = 'y';
	np[nl] = 0;
	char *s = malloc(size);
	REQ(s != 0);
	for (int i = 0; i < CAP; i++) if (i < size) s[i] = i <= P_[6] ? p_[i] : '~';
#endif
	int ml = m == k ? nl : L_[m - 1];
	REQ(j <= ml);
#ifdef K_   /* case split */
	k = K_;
#endif
#ifdef REL
	REQ(REL == 0 ? m < k : REL == 1 ? m == k && j < nl : REL == 2 ? m == k && j == nl : m > k);
#endif
	gNew = np; gDiff = nl - L_[k - 1]; gM = m; gK = k; gNl = nl; gJ = j;
	REQ(s[P_[6]] == 0);
	gAt0 = P_[m - 1] + j; gAt1 = gAt0 + (m > k ? gDiff : 0);    /* where character j of part m is and will be; j == its length: the slash after it */
	if (m == k && j == ml) { gAt0 = P_[k] - 1; gAt1 = gAt0 + gDiff; }
	gChar0 = m == k && j < nl ? np[j] : s[gAt0];
	int r = zpathnameSetPart(s, (size_t)size, np, k);
	int total = P_[6] + gDiff;
	ENS("refused exactly when it does not fit", (r == STATUS_OKAY) == (total < size));
	if (r != STATUS_OKAY) { if (m != k) ENS("refused: unchanged", s[gAt0] == gChar0); }
	else {
		ENS("the new part, the other parts as they were, each with its slash", s[gAt1] == gChar0);
		ENS("terminated after six parts", s[total] == 0);
	}
	COVER("set");
}
void h_set_any(void)
{
	IN(int, k); IN_R(int, n, 0, 9); IN_R(int, extra, 0, 3); IN_TEXT(t, 10, "/A"); IN_TEXT(np, 3, "AB"); np[2] = 0;
	char *buf = malloc(13);
	REQ(buf != 0);
	char *s = buf + 13 - (n + 1 + extra);
	for (int i = 0; i < 10; i++) if (i < n) s[i] = t[i] ? t[i] : ' ';
	s[n] = 0;
	zpathnameSetPart(s, (size_t)(n + 1 + extra), np, k);
	COVER("set_any");
}
/* one part added to a pathname being formed: trimmed, followed by a slash */
static char *t_;
static int mktext(void)      /* t_: a text of gN characters, blank exactly before gA and after gE (gE < 0: all blank) */
{
	IN_R(int, n, 0, CAP - 1); IN_R(int, a, 0, CAP - 1); IN_R(int, e, -1, CAP - 1);
	REQ(e < 0 ? a == 0 : a <= e && e < n);
	gN = n; gA = a; gE = e;
#ifdef LOOPS
	t_ = malloc(CAP); REQ(t_ != 0);
	gText = t_; gTextLen = n;
	if (n) GBLANK_AT(t_, 0);
#else
	static char tb[CAP];
	IN_TEXT(t, CAP, "AB c/");
	for (int i = 0; i < n; i++) tb[i] = e < 0 || i < a || i > e ? ' ' : t[i] == 0 || ((i == a || i == e) && t[i] == ' ') ? 'x' : t[i];
	tb[n] = 0;
	t_ = tb;
#endif
	return e < 0 ? 0 : e - a + 1;
}
void h_trim(void)
{
	int L = mktext(), st, en;
	int r = trimPositions(t_, &st, &en);
	ENS("length without surrounding blanks", r == L);
	if (L) ENS("first and last character", st == gA && en == gE);
	else ENS("nothing", st == 0 && en == 0);
	COVER("trim");
}
void h_add(void)
{
	int L = mktext();
	IN_R(int, size, 0, CAP); IN_R(int, c, 0, CAP); IN_R(int, j, 0, CAP - 1); IN_R(char, bef, -128, 127);
	REQ(c <= size);
	char *buf = malloc(CAP);
	REQ(buf != 0);
	char *s = buf + CAP - size;
	if (j < size) s[j] = bef;
	gJ = j < size ? j : -1; gC0 = c; gBef = bef;
	int at = gA + j - c;
	gSrc0 = L && at >= gA && at <= gE ? t_[at] : 0;
	int r = zpathnameAddPart(t_, c, s, (size_t)size);
	int e = c + L + 1;
	ENS("count after the part and its slash, at most the size", r == (e < size ? e : size));
	if (j < size) {
		if (j < c || j >= r) ENS("nothing else is written", s[j] == bef);
		else if (j < c + L) ENS("the trimmed part", s[j] == gSrc0);
		else ENS("its slash", s[j] == '/');
	}
	COVER("add");
}
#ifdef FORM
static int A_[6];
static char *part[6];
#if !defined(HV_NATIVE) && !defined(HV_T2)
static int gk;
/* contract of zpathnameAddPart (unit addPart), seen at the ghost index gJ */
int zpathnameAddPart(const char *t, int c, char *s, size_t size)
{
	int k = gk++;
	__CPROVER_assert(k < 6 && t == part[k], "requires the parts in order");
	__CPROVER_assert(c >= 0 && c <= (int)size && __CPROVER_w_ok(s, size), "requires room");
	int e = c + L_[k] + 1, r = e < (int)size ? e : (int)size;
	char o = s[gJ];
	__CPROVER_havoc_object(s);
	__CPROVER_assume(gJ < c || gJ >= r ? s[gJ] == o : gJ < c + L_[k] ? s[gJ] == gSrc0 : s[gJ] == '/');
	return r;
}
#endif
void h_form(void)
{
	IN_R(int, size, 1, 2 * CAP); IN_R(int, m, 0, 5); IN_R(int, j, 0, 2 * CAP - 1);
	int at = 1, total = 1;
	static char txt[6][CAP + 8];
	for (int k = 0; k < 6; k++) {
		IN_R(int, n, 0, CAP - 1); IN_R(int, a, 0, 3);
		L_[k] = n; A_[k] = a;
		if (k < m) at += L_[k] + 1;
		total += L_[k] + 1;
		part[k] = txt[k];
#if defined(HV_NATIVE) || defined(HV_T2)
		for (int i = 0; i < CAP + 8; i++) txt[k][i] = i >= n + a + 2 ? 0 : i < a || i >= n + a ? ' ' : (char)('A' + (i + k) % 26);
#endif
	}
	REQ(j < size);
	char *buf = malloc(2 * CAP);
	REQ(buf != 0);
	char *s = buf + 2 * CAP - size;
	gJ = j;
#if defined(HV_NATIVE) || defined(HV_T2)
	gSrc0 = j >= at && j < at + L_[m] ? part[m][A_[m] + j - at] : 0;
#endif
	int r = zpathnameForm(part[0], part[1], part[2], part[3], part[4], part[5], s, (size_t)size);
	if (total < size) {
		if (j == 0) ENS("slash first", s[0] == '/');
		if (j >= at && j < at + L_[m]) ENS("the parts in order", s[j] == gSrc0);
		if (j == at + L_[m]) ENS("a slash after each part", s[j] == '/');
		if (j == total) ENS("terminated", s[j] == 0);
		ENS("count", r == total + 1);
	}
	else if (j == size - 1) ENS("too long: cut and terminated", s[j] == 0);
	COVER("form");
}
#endif
void h_clean(void)
{
	IN_R(int, n, 0, CAP - 1); IN_R(int, size, 1, CAP); IN_R(int, j, 0, CAP - 1); IN_R(int, T, 0, CAP - 1);
#ifdef LOOPS
	char *t = malloc(CAP); REQ(t != 0);
	gText = t; gTextLen = n;
	gG = malloc((CAP + 1) * sizeof(int)); gS = malloc((CAP + 1) * sizeof(int));
	REQ(gG && gS && T <= n && j < T);
	REQ(gG[0] == 0 && gS[0] == 0 && gS[T] <= 7 && (gS[T] == 7 || T == n) && gG[0] <= gG[j] && gG[j + 1] <= gG[T] && gG[T] <= T && gG[j] >= 0 && gG[j] <= j && gS[j] >= 0 && gS[j] <= j);
	gT = T; gI = j;
	GCLEAN_AT(t, j);
#else
	static int g_[CAP + 1], s_[CAP + 1];
	gG = g_; gS = s_;
	IN_TEXT(t, CAP, AL);
	for (int i = 0; i < CAP; i++) if (i < n && t[i] == 0) t[i] = 1;
	t[n] = 0;
	T = n;
	for (int i = 0; i < n; i++) { gG[i + 1] = gG[i] + GKEPT(t, i); gS[i + 1] = gS[i] + (t[i] == '/'); if (gS[i] < 7 && gS[i + 1] == 7) T = i + 1; }
	REQ(j < T);
#endif
	gSrc0 = t[j];
	char *buf = malloc(CAP);
	REQ(buf != 0);
	char *s = buf + CAP - size;
	int r = zpathnameClean(s, (size_t)size, t);
	int want = gG[T] < size - 1 ? gG[T] : size - 1;
	ENS("printable characters up to the seventh slash", r == want && s[r] == 0);
	if (GKEPT(t, j) && gG[j] < want) ENS("in order", s[gG[j]] == gSrc0);
	COVER("clean");
}
