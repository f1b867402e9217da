/* Contracts: stepping by intervals (C05): incrementTime, numberPeriods; interval offsets (C08): ztsOffset, ztsOffsetAdjust* */
#include "hv.h"
#include "heclib.h"
#include "heclibDate.h"
#include "hecdssInternal.h"
#include "ghostcal.h"
#ifndef I_
#define I_ 3600
#endif
#define JR 3000000
#define DAY 86400
#if defined(CLEAN_STUB) && !defined(HV_NATIVE) && !defined(HV_T2)
/* contract of cleanTime (C02), seconds: same instant, time of day in 1..day length; a normal time is left alone */
int cleanTime(int *julianDate, int *itime, int timeGranularitySeconds)
{
	__CPROVER_assert(timeGranularitySeconds == 1 && *julianDate > -40000000 && *julianDate < 40000000, "precondition of cleanTime");
	int oj = *julianDate, ot = *itime, j = nondet_int(), t = nondet_int();
	if (oj == 0 && ot == 0) { *julianDate = UNDEFINED_TIME; *itime = -1; return 0; }
	if (ot >= 1 && ot <= DAY) return 1;
	__CPROVER_assume(t >= 1 && t <= DAY && j > -41000000 && j < 41000000 && ((long long)j - oj) * DAY == (long long)ot - t);
	*julianDate = j; *itime = t;
	return 1;
}
#endif
/* --- intervals up to a week: exact arithmetic on instants */
/* normal form of an instant given in seconds from day 0: day q, time of day r in 1..day length */
static void split(long long L, int *q, int *r)
{
	int d = (int)(L / DAY), x = (int)(L - (long long)d * DAY);
	if (x < 1) { d--; x += DAY; }
	*q = d; *r = x;
}
/* lemma: the normal form is the same instant */
void h_split(void)
{
	IN_R(long long, L, -200000000000LL, 200000000000LL);
	int q, r;
	split(L, &q, &r);
	ENS("normal form of an instant", r >= 1 && r <= DAY && (long long)q * DAY + r == L);
	COVER("split");
}
void h_incr(void)
{
	IN_R(int, j, -JR, JR); IN_R(int, s, 0, 10 * DAY); IN_R(int, n, -NMAX, NMAX);
	REQ(!(j == 0 && s == 0));
	int je, se, q, x, r = incrementTime(I_, n, j, s, &je, &se);
	split(((long long)I_ * (long long)n) + (long long)s, &q, &x);
	ENS("start plus n intervals, normalised", r == STATUS_OKAY && je == j + q && se == x);
	COVER("incr");
}
void h_np(void)
{
	IN_R(int, j, -JR, JR); IN_R(int, s, 1, DAY); IN_R(int, je, -JR, JR); IN_R(int, se, 1, DAY);
	REQ(je - j < 24000LL * I_ && je - j > -24000LL * I_);
	int days = je - j, secs = se - s;
	long long D = (long long)days * DAY + (long long)secs;
	int r = numberPeriods(I_, j, s, je, se);
	ENS("complete intervals between two times", D >= 0 ? (long long)r * I_ <= D && D - (long long)r * I_ < I_ : (long long)r * I_ >= D && (long long)r * I_ - D < I_);
	COVER("np");
}
/* --- calendar intervals */
static int kY, kM, kN;    /* months moved */
#ifndef KIND
#define KIND 1          /* 1 month, 12 year */
#endif
#ifndef ABACK
#define ABACK 0
#endif
/* start of a period: m-th month of y, the target n months (years) later */
static void h_cal(int eom)
{
	IN_R(int, y, 400, 9000); IN_R(int, m, 1, 12); IN_R(int, ty, 400, 9000); IN_R(int, tm, 1, 12); IN_R(int, d, 1, 31); IN_R(int, s, 1, DAY);
	IN_R(int, ja, -550000, 2800000); IN_R(int, jb, -550000, 2800000);
	if (KIND == 12) { if (eom) { m = 12; } tm = m; }
	int months = (ty - y) * 12 + tm - m, n = KIND == 12 ? ty - y : months;
	gN = 0;
	int a = ghost(y, m, ja), a1 = gnext(a), ap = gprev(a);
	int b, b1, bp;
	if (ABACK == 0) { REQ(months == 0); b = a; b1 = a1; bp = ap; }
	else if (ABACK == 1) { REQ(months == 1); b = a1; bp = a; b1 = gnext(b); }
	else if (ABACK == 2) { REQ(months == -1); b = ap; b1 = a; bp = gprev(b); }
	else {
		REQ(ABACK == 3 ? months > 1 : months < -1);
		b = ghost(ty, tm, jb); b1 = gnext(b); bp = gprev(b);
		REQ(months > 0 ? gJ[b] >= gJ[a1] + (months - 1) * 28 && gJ[b] <= gJ[a1] + (months - 1) * 31 : gJ[b1] <= gJ[a] && gJ[a] - gJ[b1] <= 31 * (-months - 1) && gJ[a] - gJ[b1] >= 28 * (-months - 1));
	}
	if (eom) { d = gL[a]; s = DAY; }
	else REQ(d <= 27);
	int je, se, r = incrementTime(KIND == 12 ? SECS_IN_1_YEAR : SECS_IN_1_MONTH, n, gJ[a] + d - 1, s, &je, &se);
	int ed = eom ? gL[b] : d;
	ENS("same place in the month n months (years) away, month ends stay month ends", r == STATUS_OKAY && je == gJ[b] + ed - 1 && se == s);
	COVER("cal");
}
void h_cal_eom(void) { h_cal(1); }
void h_cal_off(void) { h_cal(0); }
void h_np_cal(void)
{
	IN_R(int, y, 400, 9000); IN_R(int, m, 1, 12); IN_R(int, ty, 400, 9000); IN_R(int, tm, 1, 12); IN_R(int, d, 1, 31); IN_R(int, s, 1, DAY); IN_R(int, eom, 0, 1);
	IN_R(int, ja, -550000, 2800000); IN_R(int, jb, -550000, 2800000);
	if (KIND == 12) tm = m;
	gN = 0;
	int a = ghost(y, m, ja), b = ghost(ty, tm, jb), months = (ty - y) * 12 + tm - m;
	REQ(months == 0 ? ja == jb : months > 0 ? gJ[b] >= gJ[a] + gL[a] : gJ[a] >= gJ[b] + gL[b]);
	REQ(eom || d <= 28);
	REQ(!(gJ[a] + d - 1 == 0 && s == 0));
	int da = eom ? gL[a] : d, db = eom ? gL[b] : d;
	ENS("number of months (years) between the same place of two months", numberPeriods(KIND == 12 ? SECS_IN_1_YEAR : SECS_IN_1_MONTH, gJ[a] + da - 1, s, gJ[b] + db - 1, s) == (KIND == 12 ? ty - y : months));
	COVER("np_cal");
}
/* two dates of one calendar year are at most one year apart */
void h_np_year(void)
{
	IN_R(int, y, 400, 9000); IN_R(int, m, 1, 12); IN_R(int, tm, 1, 12); IN_R(int, d, 1, 31); IN_R(int, td, 1, 31); IN_R(int, s, 1, DAY); IN_R(int, ts, 1, DAY);
	IN_R(int, ja, -550000, 2800000); IN_R(int, jb, -550000, 2800000);
	gN = 0;
	int a = ghost(y, m, ja), b = ghost(y, tm, jb);
	REQ(m == tm ? ja == jb : m < tm ? gJ[b] >= gJ[a] + gL[a] : gJ[a] >= gJ[b] + gL[b]);
	REQ(d <= gL[a] && td <= gL[b] && m <= tm);
	int r = numberPeriods(SECS_IN_1_YEAR, gJ[a] + d - 1, s, gJ[b] + td - 1, ts);
	ENS("less than 11 months apart is no year, at most one year in a calendar year", r >= 0 && r <= (tm - m >= 11 ? 1 : 0));
	COVER("np_year");
}
/* --- C08: offsets of times from the end of their interval (intervals up to a week) */
#define WEEK 604800
/* seconds from the start of the interval holding the time, 0 for a time that ends an interval */
static int off(int j, int s) { int w = (j % 7 + 7) % 7; return I_ <= DAY ? s % I_ : (int)((w * DAY + s) % WEEK); }
void h_off(void)
{
	IN_R(int, j, -JR, JR); IN_R(int, s, 1, DAY);
	ENS("offset inside the interval", ztsOffset(I_, j, s) == off(j, s));
	COVER("off");
}
void h_std(void)
{
	IN_R(int, j, -JR, JR); IN_R(int, s, 1, DAY);
	int je = j, se = s, o = off(j, s), r = ztsOffsetAdjustToStandard(I_, &je, &se);
	/* the end of the interval: I - offset later */
	ENS("moved to the end of its interval", r == o && se >= 1 && se <= DAY && ((long long)je - j) * DAY + se - s == (o ? I_ - o : 0));
	ENS("a time ending an interval", off(je, se) == 0);
	COVER("std");
}
void h_adj(void)
{
	IN_R(int, j, -JR, JR); IN_R(int, s, 1, DAY); IN_R(int, o, 0, I_ - 1);
	int je = j, se = s, o0 = off(j, s);
	ztsOffsetAdjustToOffset(o, I_, &je, &se);
	ENS("moved inside its interval to the offset", se >= 1 && se <= DAY && ((long long)je - j) * DAY + se - s == (o0 ? 0 : -I_) - o0 + (o ? o : I_));
	COVER("adj");
}
/* calendar intervals: the period holding the date and its end day */
#ifndef SLOTS
#define SLOTS 1        /* periods per month: 1, 2 (semi-month), 3 (tri-month); 0 is a year */
#endif
#define CALI (SLOTS == 0 ? SECS_IN_1_YEAR : SLOTS == 1 ? SECS_IN_1_MONTH : SLOTS == 2 ? SECS_IN_SEMI_MONTH : SECS_IN_TRI_MONTH)
static int endday(int d, int L) { return SLOTS == 2 && d <= 15 ? 15 : SLOTS == 3 && d <= 10 ? 10 : SLOTS == 3 && d <= 20 ? 20 : L; }
static int begday(int d) { return SLOTS == 2 && d > 15 ? 15 : SLOTS == 3 && d > 20 ? 20 : SLOTS == 3 && d > 10 ? 10 : 0; }
void h_cal_std(void)
{
	IN_R(int, y, 400, 9000); IN_R(int, m, 1, 12); IN_R(int, d, 1, 31); IN_R(int, s, 1, DAY); IN_R(int, ja, -550000, 2800000); IN_R(int, o, 0, DAY * 9);
	gN = 0;
	int a = ghost(y, m, ja); gnext(a);
	REQ(d <= gL[a]);
	int e, j = gJ[a] + d - 1, je = j, se = s;
	if (SLOTS == 0) {
		int c = m <= 2 ? 365 + leap(y) - (m == 2 ? 31 : 0) : 0;
		static const int cumto[13] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
		int dec = ghost(y, 12, gJ[a] + (334 + leap(y)) - (cumto[m] + (m > 2 ? leap(y) : 0)));
		ghost(y + 1, 1, gJ[dec] + 31); ghost(y, 1, gJ[dec] - 334 - leap(y)); (void)c;
		e = gJ[dec] + 30;
	}
	else e = gJ[a] + endday(d, gL[a]) - 1;
	ztsOffsetAdjustToStandard(CALI, &je, &se);
	ENS("moved to the end of the last day of its period", je == e && se == DAY);
	int off1 = ztsOffset(CALI, j, s), off2 = ztsOffset(CALI, je, se);
	ENS("a time ending a period has no offset", off2 == 0);
	ENS("the offset is counted from the start of the period; days next to its end round to it",
		off1 == 0 || off1 == ((SLOTS == 0 ? j - (e - 365 - (leap(y) && m <= 2)) : d - begday(d)) - 1) * DAY + s);
	ENS("times well inside the period keep their offset", !(SLOTS ? d - begday(d) <= 7 : m < 12) || off1 != 0);
	COVER("cal_std");
}
/* a time given by its offset in a month is restored exactly */
void h_cal_adj(void)
{
	IN_R(int, y, 400, 9000); IN_R(int, m, 1, 12); IN_R(int, d, 1, 31); IN_R(int, x, 1, 31); IN_R(int, s, 1, DAY); IN_R(int, t, 1, DAY); IN_R(int, ja, -550000, 2800000);
	gN = 0;
	int a = ghost(y, m, ja); gnext(a); gprev(a);
	int lo = begday(d), hi = endday(d, gL[a]);
	REQ(d <= gL[a] && x > lo && x <= hi && x - lo <= (SLOTS == 1 ? 26 : SLOTS == 2 ? 12 : 7));
	int je = gJ[a] + d - 1, se = s, o = (x - lo - 1) * DAY + t;
	ztsOffsetAdjustToOffset(o, CALI, &je, &se);
	ENS("moved inside its period to the offset", je == gJ[a] + x - 1 && se == t);
	COVER("cal_adj");
}
