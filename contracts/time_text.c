/* Contracts: time of day as text (C03): secondsToTimeString, timeStringToSecondsMills, timeStringToSeconds, minutesToHourMin */
#include "hv.h"
#include <string.h>
#include "heclib.h"
#include "heclibDate.h"
#include "hecdssInternal.h"
#ifndef STYLE
#define STYLE 2
#endif
#define CAP 16
static int dig(char hi, char lo, int v) { return hi == '0' + v / 10 && lo == '0' + v % 10; }
/* the exact text of a time of day for a style and buffer size; nothing is written past the size given */
static int post_s2t(int s, int ms, int style, const char *t, size_t n)
{
	if (n < 5) return 1;
	if (style < 0 || style > 3 || s < 0 || s > 86400) return t[0] == 0;
	int k = 0;
	if (!dig(t[0], t[1], s / 3600)) return 0;
	k = 2;
	if (style) { if (t[2] != ':') return 0; k = 3; }
	if (!dig(t[k], t[k + 1], s / 60 % 60)) return 0;
	k += 2;
	if (style < 2 || n < 9) return (size_t)k < n ? t[k] == 0 : 1;
	if (t[5] != ':' || !dig(t[6], t[7], s % 60)) return 0;
	if (style < 3 || n < 13 || ms < 0 || ms > 999) return t[8] == 0;
	return t[8] == '.' && t[9] == '0' + ms / 100 && dig(t[10], t[11], ms % 100) && t[12] == 0;
}
HV_CONTRACT(
void secondsToTimeString(int secondsPastMidnight, int millsPastSecond, int timeStyle, char *timeString, size_t sizeofTimeString)
__CPROVER_requires(sizeofTimeString <= CAP && __CPROVER_w_ok(timeString, sizeofTimeString))
__CPROVER_ensures(post_s2t(secondsPastMidnight, millsPastSecond, timeStyle, timeString, sizeofTimeString))
__CPROVER_assigns(__CPROVER_object_upto(timeString, sizeofTimeString))
;)
void h_s2t(void)
{
	IN_R(int, s, -100000, 100000); IN_R(int, ms, -2000, 2000); IN_R(int, style, -2, 5); IN_R(int, n, 0, CAP);
	char *t = malloc(n ? n : 1);
	REQ(t != 0);
	memset(t, 1, n ? n : 1);
	secondsToTimeString(s, ms, style, t, n);
	ENS("text of the time of day", post_s2t(s, ms, style, t, n));
	COVER("s2t");
}
/* text -> seconds -> text */
void h_round(void)
{
	IN_R(int, s, 0, 86400);
	char t[CAP];
	secondsToTimeString(s, 0, STYLE, t, CAP);
	int r = timeStringToSeconds(t);
	ENS("parsing the text returns the time of day", r == (STYLE < 2 ? s - s % 60 : s));
	COVER("round");
}
void h_round_ms(void)
{
	IN_R(int, s, 0, 86400); IN_R(int, ms, 0, 999);
	char t[CAP];
	secondsToTimeString(s, ms, 3, t, CAP);
	float r = timeStringToSecondsMills(t);
	double e = (double)r - (s + ms * 0.001);
	ENS("parsing the text returns the time of day within single precision", e < 0.0079 && e > -0.0079);
	COVER("round_ms");
}
/* reading any text: digits only are significant, at least 3 digits of time are needed, otherwise refused */
#ifndef N
#define N 9
#endif
void h_parse(void)
{
	IN_TEXT(t, N + 1, "0123456789:. "); t[N] = 0;
	int nd = 0, dot = -1, d[N + 1], nb = 0;
	for (int i = 0; i < N && t[i]; i++) { if (t[i] >= '0' && t[i] <= '9') d[nd++] = t[i] - '0'; else if (t[i] == '.') { dot = nd; nb++; } }
	REQ(nd < 9 && nb <= 1);
	int k = dot > 0 ? dot : nd;         /* digits of hour, minute, second */
	float r = timeStringToSecondsMills(t);
	if (nd < 3 || k < 3) ENS("fewer than three digits are refused", r == -1.0f);
	else {
		int o = k % 2 ? 0 : 1;
		int h = o ? d[0] * 10 + d[1] : d[0], m = d[1 + o] * 10 + d[2 + o], sc = (k == 5 || k == 6) ? d[3 + o] * 10 + d[4 + o] : 0;
		long e = h * 3600L + m * 60 + sc;
		if (dot > 0 && nd - dot == 0) ENS("whole seconds", r == (float)e);
		else if (dot <= 0) ENS("the digits read as (h)hmm(ss)", r == (float)e);
		else ENS("a fraction adds less than 1 s per 3 digits", nd - dot > 3 || (r >= (float)e && r <= (float)e + 1.0f));
	}
	COVER("parse");
}
void h_min(void)
{
	IN_R(int, m, 0, 5999); IN_R(int, n, 0, CAP);
	char *t = malloc(n ? n : 1);
	REQ(t != 0);
	minutesToHourMin(m, t, n);
	if (n >= 5) ENS("hhmm", dig(t[0], t[1], m / 60) && dig(t[2], t[3], m % 60) && t[4] == 0);
	COVER("min");
}
