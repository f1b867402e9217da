/* Specification calendar and the contract of julianToYearMonthDay that callers are checked against.
 * The contract's postcondition is what property C01 proves: a valid date whose day number is the argument.
 * The ghost dates are instances of uniqueness (day numbers are strictly increasing, C01): a ghost date whose
 * day number equals the argument IS the result. */
#ifndef HV_CALENDAR_H
#define HV_CALENDAR_H
static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mlen(int y, int m) { return m == 2 ? 28 + leap(y) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
static const int cum_[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
static int cum(int y, int m) { return cum_[m - 1] + (m > 2 ? leap(y) : 0); }
/* day number of a date, years 5 and later */
static int J(int y, int m, int d) { int z = y - 1; return y * 365 + z / 4 - z / 100 + z / 400 + cum(y, m) + d - 693960; }
static int valid(int y, int m, int d) { return y >= 5 && m >= 1 && m <= 12 && d >= 1 && d <= mlen(y, m); }
#define YLO 5
#define YHI 3199
#define JLO_ (-692133)     /* 01Jan0005 */
#define JHI_ 474816        /* 31Dec3199 */
#define NG 6
static int gN, gY[NG], gM[NG], gD[NG], gJ[NG];
static void ghost(int y, int m, int d) { gY[gN] = y; gM[gN] = m; gD[gN] = d; gJ[gN] = J(y, m, d); gN++; }
static int post_inv(int j, int y, int m, int d)
{
	if (!(y >= YLO && y <= YHI && valid(y, m, d))) return 0;
#ifndef GHOST_ONLY
	if (J(y, m, d) != j) return 0;
#endif
	for (int i = 0; i < NG; i++) if (i < gN && gJ[i] == j && !(y == gY[i] && m == gM[i] && d == gD[i])) return 0;
	return 1;
}
HV_CONTRACT(
int julianToYearMonthDay(int julian, int *year, int *month, int *day)
__CPROVER_requires(julian >= JLO_ && julian <= JHI_)
__CPROVER_requires(__CPROVER_w_ok(year, sizeof(int)) && __CPROVER_w_ok(month, sizeof(int)) && __CPROVER_w_ok(day, sizeof(int)))
__CPROVER_ensures(__CPROVER_return_value == 0 && post_inv(julian, *year, *month, *day))
__CPROVER_assigns(*year, *month, *day)
;)
#endif
