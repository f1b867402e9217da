/* Contracts: dates as text (C04): yearMonthDayToDate, dateToYearMonthDay, dateToJulian */
#include "hv.h"
#include <string.h>
#include <stdlib.h>
#include "heclib.h"
#include "heclibDate.h"
#include "hecdssInternal.h"
#include "libc_model.h"
#ifndef STYLE
#define STYLE 4
#endif
static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mlen(int y, int m) { return m == 2 ? 28 + leap(y) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
static int noday(int st) { st = st >= 100 ? st - 100 : st; st %= 10; return st == 3 || st == 6 || st == 9; }
void h_round(void)
{
	IN_R(int, y, 1000, 9999); IN_R(int, m, 1, 12); IN_R(int, d, 1, 31);
	REQ(d <= mlen(y, m));
	char t[24]; int yy, mm, dd;
	yearMonthDayToDate(y, m, d, STYLE, t, sizeof t);
	int r = dateToYearMonthDay(t, &yy, &mm, &dd);
	ENS("the text reads back as the same date", r == 0 && yy == y && mm == m && dd == (STYLE >= 0 && noday(STYLE) ? 0 : d));
	COVER("round");
}
static const char MON[37] = "JanFebMarAprMayJunJulAugSepOctNovDec";
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int d2(const char *t, int v) { return t[0] == '0' + v / 10 && t[1] == '0' + v % 10; }
static int d4(const char *t, int v) { return d2(t, v / 100) && d2(t + 2, v % 100); }
void h_text(void)
{
	IN_R(int, y, 0, 9999); IN_R(int, m, 1, 12); IN_R(int, d, 1, 31);
	char t[24];
	yearMonthDayToDate(y, m, d, STYLE, t, sizeof t);
	if (STYLE == 4 || STYLE == 104) {
		int u = STYLE == 104;
		ENS("ddMmmyyyy", d2(t, d) && d4(t + 5, y) && t[9] == 0 && t[2] == MON[3 * (m - 1)] &&
			t[3] == (u ? up(MON[3 * (m - 1) + 1]) : MON[3 * (m - 1) + 1]) && t[4] == (u ? up(MON[3 * (m - 1) + 2]) : MON[3 * (m - 1) + 2]));
	}
	else if (STYLE == -13) ENS("yyyy-mm-dd", d4(t, y) && t[4] == '-' && d2(t + 5, m) && t[7] == '-' && d2(t + 8, d) && t[10] == 0);
	else if (STYLE == -111) ENS("mm/dd/yyyy", d2(t, m) && t[2] == '/' && d2(t + 3, d) && t[5] == '/' && d4(t + 6, y) && t[10] == 0);
	COVER("text");
}
/* impossible months and days are refused */
void h_refuse(void)
{
	IN(int, y); IN(int, m); IN(int, d); IN_R(int, st, -200, 200);
	REQ(m < 1 || m > 12 || d < 1 || d > 31);
	char t[4] = "ab";
	ENS("refused, text untouched", yearMonthDayToDate(y, m, d, st, t, sizeof t) == STATUS_NOT_OKAY && t[0] == 'a' && t[1] == 'b');
	COVER("refuse");
}
/* never writes past the buffer, always terminated */
void h_small(void)
{
	IN_R(int, y, 1000, 9999); IN_R(int, m, 1, 12); IN_R(int, d, 1, 31); IN_R(int, n, 1, 16);
	char *t = malloc(n);
	REQ(t != 0);
	memset(t, 'x', n);
	yearMonthDayToDate(y, m, d, STYLE, t, n);
	int z = 0;
	for (int i = 0; i < n; i++) if (t[i] == 0) z = 1;
	ENS("terminated inside the buffer", z);
	COVER("small");
}
