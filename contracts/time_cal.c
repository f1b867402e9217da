/* Contracts: the proleptic Gregorian calendar (C01): yearMonthDayToJulian, julianToYearMonthDay, isLeapYear, dayOfWeek */
#include "hv.h"
#include "heclib.h"
#include "heclibDate.h"
#define YMAX 100000
static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mlen(int y, int m) { return m == 2 ? 28 + leap(y) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }

HV_CONTRACT(
int isLeapYear(int year)
__CPROVER_ensures((__CPROVER_return_value != 0) == (leap(year) != 0))
__CPROVER_assigns()
;)
void h_leap(void)
{
	IN(int, y);
	ENS("divisible by 4, centuries only when divisible by 400", (isLeapYear(y) != 0) == (leap(y) != 0));
	COVER("leap");
}
/* the day after a date has the next number; 31Dec1899 is 0; day arithmetic inside a month is linear */
void h_succ_day(void)
{
	IN_R(int, y, 5, YMAX); IN_R(int, m, 1, 12); IN_R(int, d, 1, 31);
	REQ(d < mlen(y, m));
	ENS("the following date has the following number (same month)", yearMonthDayToJulian(y, m, d + 1) == yearMonthDayToJulian(y, m, d) + 1);
	COVER("succ");
}
void h_succ_month(void)
{
	IN_R(int, y, 5, YMAX); IN_R(int, m, 1, 11);
	ENS("the following date has the following number (end of month)", yearMonthDayToJulian(y, m + 1, 1) == yearMonthDayToJulian(y, m, mlen(y, m)) + 1);
	COVER("succ");
}
void h_succ_year(void)
{
	IN_R(int, y, 5, YMAX);
	ENS("the following date has the following number (end of year)", yearMonthDayToJulian(y + 1, 1, 1) == yearMonthDayToJulian(y, 12, 31) + 1);
	COVER("succ");
}
void h_anchor(void)
{
	ENS("31Dec1899 is day 0", yearMonthDayToJulian(1899, 12, 31) == 0);
	ENS("01Jan1900 is day 1", yearMonthDayToJulian(1900, 1, 1) == 1);
	COVER("anchor");
}
/* any day count and any month number are normalised: day d of month m is d-1 days after the first, month 13 is January of the next year */
void h_norm(void)
{
	IN_R(int, y, 1000, 9999); IN_R(int, m, -1200, 1200); IN_R(int, d, -1000000, 1000000);
	int k = (m >= 1) ? (m - 1) / 12 : -((12 - m) / 12);
	ENS("months outside 1..12 carry into the year", yearMonthDayToJulian(y, m, d) == yearMonthDayToJulian(y + k, m - 12 * k, 1) + d - 1);
	COVER("norm");
}
#ifndef JLO
#define JLO -365
#define JHI 73049
#endif
void h_inv(void)
{
	IN_R(int, j, JLO, JHI);
	int y, m, d;
	int r = julianToYearMonthDay(j, &y, &m, &d);
	ENS("a valid date", r == 0 && m >= 1 && m <= 12 && d >= 1 && d <= mlen(y, m));
	ENS("converting back returns the same day", yearMonthDayToJulian(y, m, d) == j);
	COVER("inv");
}
void h_dow(void)
{
	IN_R(int, j, -40000000, 40000000);
	int a = dayOfWeek(j);
	ENS("weekday 1..7, Sunday is 1, consecutive", a >= 1 && a <= 7 && dayOfWeek(0) == 1 && dayOfWeek(j + 1) == (a == 7 ? 1 : a + 1));
	COVER("dow");
}
