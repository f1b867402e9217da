/* Contracts of the two calendar conversions as callers use them: a table of ghost months (year, month, day number of
 * the first).  Each clause is an instance of what C01 proves: inside a month the day number is linear in the day, a day
 * number between the first and the last of a month is a date of that month, months outside 1..12 carry into the year,
 * and consecutive months are adjacent.  Nothing is assumed about dates outside the ghost months. */
#ifndef HV_GHOSTCAL_H
#define HV_GHOSTCAL_H
static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mlen(int y, int m) { return m == 2 ? 28 + leap(y) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
static int valid(int y, int m, int d) { return y >= 5 && m >= 1 && m <= 12 && d >= 1 && d <= mlen(y, m); }
#ifndef NG
#define NG 8
#endif
static int gN, gY[NG], gM[NG], gL[NG], gJ[NG];
#ifdef HV_NATIVE
/* natively the real calendar runs; the ghost firsts are read from it */
static int ghost(int y, int m, int j) { gY[gN] = y; gM[gN] = m; gL[gN] = mlen(y, m); gJ[gN] = yearMonthDayToJulian(y, m, 1); return gN++; }
#else
static int ghost(int y, int m, int j) { gY[gN] = y; gM[gN] = m; gL[gN] = mlen(y, m); gJ[gN] = j; return gN++; }
#endif
/* the month after / before ghost k */
static int gnext(int k) { return ghost(gM[k] == 12 ? gY[k] + 1 : gY[k], gM[k] == 12 ? 1 : gM[k] + 1, gJ[k] + gL[k]); }
static int gprev(int k) { int y = gM[k] == 1 ? gY[k] - 1 : gY[k], m = gM[k] == 1 ? 12 : gM[k] - 1; return ghost(y, m, gJ[k] - mlen(y, m)); }
static int post_inv(int j, int y, int m, int d)
{
	for (int i = 0; i < NG; i++) if (i < gN && gJ[i] <= j && j < gJ[i] + gL[i] && !(y == gY[i] && m == gM[i] && d == j - gJ[i] + 1)) return 0;
	return 1;
}
static int post_j(int y, int m, int d, int r)
{
	for (int i = 0; i < NG; i++) if (i < gN) {
		long long dm = ((long long)gY[i] - y) * 12 + gM[i] - m;
		if (dm == 0 && r != gJ[i] + d - 1) return 0;
	}
	return 1;
}
#if !defined(HV_NATIVE) && !defined(HV_T2)
/* the contracts, in the place of the bodies: assert the precondition, havoc the frame, assume the postcondition */
int julianToYearMonthDay(int julian, int *year, int *month, int *day)
{
	int y = nondet_int(), m = nondet_int(), d = nondet_int();
	__CPROVER_assume(y > -100000 && y < 100000 && m >= 1 && m <= 12 && d >= 1 && d <= 31 && post_inv(julian, y, m, d));
	*year = y; *month = m; *day = d;
	return 0;
}
int yearMonthDayToJulian(int year, int month, int day)
{
	__CPROVER_assert(day > -100000 && day < 100000 && year > -1000000 && year < 1000000 && month > -1000000 && month < 1000000, "precondition of yearMonthDayToJulian");
	int r = nondet_int();
	__CPROVER_assume(post_j(year, month, day, r) && r > -20000000 && r < 20000000);
	return r;
}
#endif
#endif
