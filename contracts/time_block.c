/* Contracts: storage blocks of time series (C06): ztsRegGetBlockStart, ztsIrregGetBlockStart, ztsIncrementBlock */
#include "hv.h"
#include "heclib.h"
#include "heclibDate.h"
#include "hecdssInternal.h"
#ifdef INCR
#include "ghostcal.h"
#else
#include "calendar.h"
#endif
#ifndef INTERVAL
#define INTERVAL 3600
#endif
#ifndef BS
#define BS 3
#endif
#ifndef INCR
/* block kind of an interval: 1 day, 2 month, 3 year, 4 decade, 5 century */
static int kind(int I) { return I < 900 ? 1 : I < 86400 ? 2 : I < 604800 ? 3 : I < 31536000 ? 4 : 5; }
static int unitY(int y, int k) { return k == 5 ? y - y % 100 : k == 4 ? y - y % 10 : y; }
static int startOf(int y, int m, int d, int k) { return k == 1 ? J(y, m, d) : k == 2 ? J(y, m, 1) : J(unitY(y, k), 1, 1); }
void h_reg(void)
{
	IN_R(int, y, 100, YHI); IN_R(int, m, 1, 12); IN_R(int, d, 1, 31); IN_R(int, I, 1, 31536000);
	REQ(valid(y, m, d));
	gN = 0; ghost(y, m, d);
	int bs = 0, s = ztsRegGetBlockStart(gJ[0], I, &bs);
	ENS("block kind follows the interval", bs == kind(I));
	ENS("start of the day / month / year / decade / century holding the date", s == startOf(y, m, d, kind(I)));
	COVER("reg");
}
void h_irr(void)
{
	IN_R(int, y, 100, YHI); IN_R(int, m, 1, 12); IN_R(int, d, 1, 31); IN_R(int, k, 1, 5);
	REQ(valid(y, m, d));
	gN = 0; ghost(y, m, d);
	ENS("start of the block holding the date", ztsIrregGetBlockStart(gJ[0], k) == startOf(y, m, d, k));
	COVER("irr");
}
#else
void h_incr(void)
{
	IN_R(int, y, 200, 9800); IN_R(int, m, 1, 12); IN_R(int, d, 1, 31); int back = BACK; IN_R(int, j, -600000, 3000000); IN_R(int, j2, -600000, 3000000);
	if (BS > 1) d = 1;
	if (BS > 2) m = 1;
	if (BS == 4) { REQ(y % 10 == 0); }
	if (BS == 5) { REQ(y % 100 == 0); }
	REQ(valid(y, m, d));
	gN = 0;
	int k = ghost(y, m, j), step = back ? -1 : 1, e, n, last;
	int s = gJ[k] + d - 1;
	/* expected: the first day of the next (previous) unit */
	if (BS == 1) e = s + step;
	else if (BS == 2) { if (back) { n = gprev(k); gprev(n); gnext(k); } else { n = gnext(k); gnext(n); gprev(k); } e = gJ[n]; }
	else {
		int ny = y + step * (BS == 3 ? 1 : BS == 4 ? 10 : 100);
		/* the year's December, the target January and December: day numbers known up to C01's year length */
		int yl = 365 + leap(y), nyl = 365 + leap(ny);
		ghost(y, 12, gJ[k] + yl - 31);
		n = ghost(ny, 1, j2);
		ghost(ny, 12, gJ[n] + nyl - 31); ghost(ny - 1, 12, gJ[n] - 31);
		REQ(back ? gJ[n] + nyl <= gJ[k] : gJ[n] >= gJ[k] + yl);
		REQ(BS != 3 || (back ? gJ[n] + nyl == gJ[k] : gJ[n] == gJ[k] + yl));
		e = gJ[n];
	}
	int r = ztsIncrementBlock(s, back ? -BS : BS);
	ENS("the block starts are consecutive", r == e);
	COVER("incr");
}
#endif
