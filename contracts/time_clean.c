/* Contracts: normalising and ordering (day, time-of-day) pairs: cleanTime, compareTimes, isTimeInRange, isTimeDefined */
#include "hv.h"
#include "heclib.h"
#include "heclibDate.h"
#include "hecdssInternal.h"
#include "zStructTsTimeWindow.h"
#ifndef G
#define G 1
#endif
#ifndef G2
#define G2 1
#endif
#define UNDEF (-2147483647)
#define TR 200000000
#define JR 40000000              /* |day number| bound: +-100 000 years, so day arithmetic stays inside int */
static int dl(int g) { return 86400 / g; }   /* units of granularity g in one day */
static int pre_clean(int j, int t, int g) { return g == G && (j == UNDEF || (j > -JR && j < JR)) && (g < 86400 || (t > -TR && t < TR)); }
/* same instant, time of day in 1..units-per-day; the pair (0,0) and UNDEFINED denote "undefined" */
static int post_clean(int oj, int ot, int j, int t, int g, int r)
{
	if (oj == UNDEF) return r == 0 && j == UNDEF && t == ot;
	if (oj == 0 && ot == 0) return r == 0 && j == UNDEF && t == -1;
	return r == 1 && t >= 1 && t <= dl(g) && ((long long)j - oj) * dl(g) == (long long)ot - t;
}
static int post_norm(int oj, int ot, int j, int t, int g);
HV_CONTRACT(
int cleanTime(int *julianDate, int *itime, int timeGranularitySeconds)
__CPROVER_requires(__CPROVER_w_ok(julianDate, sizeof(int)) && __CPROVER_w_ok(itime, sizeof(int)) && !__CPROVER_same_object(julianDate, itime))
__CPROVER_requires(timeGranularitySeconds == G || timeGranularitySeconds == G2)
__CPROVER_requires(*julianDate == UNDEF || (*julianDate > -JR && *julianDate < JR))
__CPROVER_requires(timeGranularitySeconds < 86400 || (*itime > -TR && *itime < TR))
#ifdef NORMFORM
__CPROVER_ensures(post_norm(__CPROVER_old(*julianDate), __CPROVER_old(*itime), *julianDate, *itime, timeGranularitySeconds))
#else
__CPROVER_ensures(post_clean(__CPROVER_old(*julianDate), __CPROVER_old(*itime), *julianDate, *itime, timeGranularitySeconds, __CPROVER_return_value))
#endif
__CPROVER_assigns(*julianDate, *itime)
;)
void h_clean(void)
{
	IN(int, j); IN(int, t); int g = G;
	REQ(pre_clean(j, t, g));
	int jj = j, tt = t;
	int r = cleanTime(&jj, &tt, g);
	ENS("same instant, time of day in 1..day length", post_clean(j, t, jj, tt, g, r));
	COVER("clean");
}

/* --- compareTimes: the sign of the difference of the two instants.
 * Ghost normal form: an instant is day A, time X in 1..units-per-day; every pair (A-K, X+K*units-per-day)
 * names it.  A, X, K are arbitrary, so quantifying over them quantifies over every pair. */
static int gA1, gX1, gK1, gA2, gX2, gK2;
static int names(int j, int t, int A, int X, int K, int g) { return j == A - K && (long long)t == X + (long long)K * dl(g); }
static int norm(int A, int X, int K, int g) { return X >= 1 && X <= dl(g) && A > -JR / 4 && A < JR / 4 && K >= -25000 * g - 1 && K <= 25000 * g + 1 && K > -JR / 4 && K < JR / 4; }
static int post_norm(int oj, int ot, int j, int t, int g)
{
	if (oj == 0 && ot == 0) return 1;
	if (g == G && norm(gA1, gX1, gK1, g) && names(oj, ot, gA1, gX1, gK1, g) && !(j == gA1 && t == gX1)) return 0;
	if (g == G2 && norm(gA2, gX2, gK2, g) && names(oj, ot, gA2, gX2, gK2, g) && !(j == gA2 && t == gX2)) return 0;
	return 1;
}
static int post_cmp(int r)
{
	long long d = ((long long)gA1 - gA2) * 86400 + (long long)gX1 * G - (long long)gX2 * G2;
	return r == (d < 0 ? -1 : d > 0 ? 1 : 0);
}
#define PRE_CMP (norm(gA1, gX1, gK1, G) && norm(gA2, gX2, gK2, G2))
HV_CONTRACT(
int compareTimes(int julianFirst, int timeFirst, int julianBaseFirst, int timeGranularitySecondsFirst,
				 int julianSecond, int timeSecond, int julianBaseSecond, int timeGranularitySecondsSecond)
__CPROVER_requires(timeGranularitySecondsFirst == G && timeGranularitySecondsSecond == G2)
__CPROVER_requires(PRE_CMP)
__CPROVER_requires(julianBaseFirst > -JR / 2 && julianBaseFirst < JR / 2 && julianBaseSecond > -JR / 2 && julianBaseSecond < JR / 2)
__CPROVER_requires(julianFirst > -JR && julianFirst < JR && julianSecond > -JR && julianSecond < JR)
__CPROVER_requires(names(julianFirst + julianBaseFirst, timeFirst, gA1, gX1, gK1, G) && names(julianSecond + julianBaseSecond, timeSecond, gA2, gX2, gK2, G2))
__CPROVER_requires(!(julianFirst + julianBaseFirst == 0 && timeFirst == 0) && !(julianSecond + julianBaseSecond == 0 && timeSecond == 0))
__CPROVER_ensures(post_cmp(__CPROVER_return_value))
__CPROVER_assigns()
;)
#define INNORM(n, g) IN_R(int, A##n, -JR / 4 + 1, JR / 4 - 1); IN_R(int, X##n, 1, 86400 / g); IN_R(int, K##n, -25000, 25000); IN_R(int, b##n, -JR / 2 + 1, JR / 2 - 1); gA##n = A##n; gX##n = X##n; gK##n = K##n; \
	long long tl##n = X##n + (long long)K##n * dl(g); REQ(tl##n <= 2147483647LL && tl##n >= -2147483648LL); int t##n = (int)tl##n; int j##n = A##n - K##n - b##n; REQ(!(A##n - K##n == 0 && t##n == 0));
void h_compare(void)
{
	INNORM(1, G) INNORM(2, G2)
	IN(int, near); if (near & 1) { gA2 = A1; j2 += A1 - A2; A2 = A1; REQ(!(j2 + b2 == 0 && t2 == 0)); }
	int r = compareTimes(j1, t1, b1, G, j2, t2, b2, G2);
	ENS("sign of the difference of the instants", post_cmp(r));
	COVER("compare");
}
/* the normal form is unique: cleanTime's result is the ghost normal form */
void h_norm(void)
{
	INNORM(1, G) gX2 = 0;
	int jj = j1 + b1, tt = t1;
	int r = cleanTime(&jj, &tt, G);
	ENS("the normal form of the instant", r == 1 && jj == A1 && tt == X1);
	COVER("norm");
}

/* --- isTimeInRange: inside the closed window (start test skipped once inside), status flag records "past the end" */
static int pre_rng(int tv, int st, int base, int sj, int ss, int ej, int es)
{
	return base > -JR && base < JR && sj > -JR && sj < JR && ej > -JR && ej < JR && ss >= 0 && ss <= 86400 && es >= 0 && es <= 86400;
}
static int post_rng(int tv, int ost, int st, int base, int sj, int ss, int ej, int es, int r)
{
	long long lo = ((long long)sj - base) * (86400 / G) + ss / G;
	long long hi = ((long long)ej - base) * (86400 / G) + es / G;
	if (ost < 0 && tv < lo) return r == 0 && st == ost;
	if (tv > hi) return r == 0 && st == 1;
	return r == 1 && st == 0;
}
HV_CONTRACT(
int isTimeInRange(int timeValue, int *lastValueStatus, int timeGranularitySeconds, int baseDate, ztsTimeWindow *timeWindow)
__CPROVER_requires(__CPROVER_w_ok(lastValueStatus, sizeof(int)) && __CPROVER_r_ok(timeWindow, sizeof(ztsTimeWindow)))
__CPROVER_requires(timeGranularitySeconds == G)
__CPROVER_requires(pre_rng(timeValue, *lastValueStatus, baseDate, timeWindow->startJulian, timeWindow->startTimeSeconds, timeWindow->endJulian, timeWindow->endTimeSeconds))
__CPROVER_ensures(post_rng(timeValue, __CPROVER_old(*lastValueStatus), *lastValueStatus, baseDate, timeWindow->startJulian, timeWindow->startTimeSeconds, timeWindow->endJulian, timeWindow->endTimeSeconds, __CPROVER_return_value))
__CPROVER_assigns(*lastValueStatus)
;)
void h_range(void)
{
	IN(int, tv); IN(int, st0); IN(int, base); IN(int, sj); IN(int, ss); IN(int, ej); IN(int, es);
	REQ(pre_rng(tv, st0, base, sj, ss, ej, es));
	ztsTimeWindow w; w.startJulian = sj; w.startTimeSeconds = ss; w.endJulian = ej; w.endTimeSeconds = es;
	int st = st0;
	int r = isTimeInRange(tv, &st, G, base, &w);
	ENS("in range iff inside the closed window", post_rng(tv, st0, st, base, sj, ss, ej, es, r));
	COVER("range");
}

HV_CONTRACT(
int isTimeDefined(int julianDate, int timeSeconds)
__CPROVER_ensures(__CPROVER_return_value == (julianDate != UNDEF && timeSeconds >= 0))
__CPROVER_assigns()
;)
void h_defined(void)
{
	IN(int, j); IN(int, t);
	int r = isTimeDefined(j, t);
	ENS("defined iff day defined and time not negative", r == (j != UNDEF && t >= 0));
	COVER("defined");
}
