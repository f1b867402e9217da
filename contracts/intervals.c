/* Contracts: names of time intervals (C07): ztsGetStandardInterval */
#include "hv.h"
#include <string.h>
#include "heclib.h"
#include "hecdssInternal.h"
#include "standardIntervals.h"
#ifndef VER
#define VER 7
#endif
static const int TS[] = {31536000, 2592000, 1296000, 864000, 604800, 86400, 43200, 28800, 21600, 14400, 10800, 7200, 3600, 1800, 1200, 900, 720, 600, 360, 300, 240, 180, 120, 60, 30, 20, 15, 10, 6, 5, 4, 3, 2, 1, -5, -4, -3, -2, -1};
static const char T7[][12] = {"1Year", "1Month", "Semi-Month", "Tri-Month", "1Week", "1Day", "12Hour", "8Hour", "6Hour", "4Hour", "3Hour", "2Hour", "1Hour", "30Minute", "20Minute", "15Minute", "12Minute", "10Minute", "6Minute", "5Minute", "4Minute", "3Minute", "2Minute", "1Minute", "30Second", "20Second", "15Second", "10Second", "6Second", "5Second", "4Second", "3Second", "2Second", "1Second", "IR-Century", "IR-Decade", "IR-Year", "IR-Month", "IR-Day"};
static const char T6[][12] = {"1YEAR", "1MON", "SEMI-MONTH", "TRI-MONTH", "1WEEK", "1DAY", "12HOUR", "8HOUR", "6HOUR", "4HOUR", "3HOUR", "2HOUR", "1HOUR", "30MIN", "20MIN", "15MIN", "12MIN", "10MIN", "6MIN", "5MIN", "4MIN", "3MIN", "2MIN", "1MIN", "", "", "", "", "", "", "", "", "", "", "IR-CENTURY", "IR-DECADE", "IR-YEAR", "IR-MONTH", "IR-DAY"};
#define NT ((int)(sizeof TS / sizeof TS[0]))
static const char *name(int i) { return VER == 6 ? T6[i] : T7[i]; }
static int has(int i) { return name(i)[0] != 0; }
static int same(const char *a, const char *b) { for (int i = 0; i < 12; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
/* seconds -> name: exactly the standard intervals have one */
void h_s2n(void)
{
	IN(int, I);
	int k = -1, s = I, op = SECONDS_TO_EPART; char e[13] = "zzz";
	for (int i = 0; i < NT; i++) if (has(i) && TS[i] == I) k = i;
	int r = ztsGetStandardInterval(VER, &s, e, sizeof e, &op);
	ENS("only standard intervals have a name", (r == 0) == (k >= 0));
	if (k >= 0) ENS("the name of the interval", same(e, name(k)) && s == I);
	COVER("s2n");
}
/* name (any letter case) -> seconds, and the canonical spelling */
void h_n2s(void)
{
	IN_R(int, k, 0, NT - 1); IN(int, mask); IN_R(int, canon, 0, 1); IN_R(int, old, 0, 1);
	REQ(has(k) && (!old || T6[k][0]));
	char e[13]; int s = 12345, op = canon ? EPART_TO_SECONDS_TO_EPART : EPART_TO_SECONDS;
	const char *n = old ? T6[k] : name(k);
	for (int i = 0; i < 12; i++) { char c = n[i]; if (mask >> i & 1) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } e[i] = c; }
	e[12] = 0;
	int r = ztsGetStandardInterval(VER, &s, e, sizeof e, &op);
	ENS("the seconds of the interval", s == TS[k] && r == (TS[k] > 0 ? 0 : 1));
	if (canon) ENS("the canonical spelling", same(e, name(k)));
	COVER("n2s");
}
/* pseudo-regular "~": the block kind shrinks with the interval */
void h_tilde(void)
{
	IN_R(int, k, 0, NT - 1); IN_R(int, canon, 0, 1);
	REQ(has(k) && TS[k] > 0);
	char e[13]; int s = 0, op = canon ? EPART_TO_SECONDS_TO_EPART : EPART_TO_SECONDS, I = TS[k];
	e[0] = '~';
	for (int i = 0; i < 11; i++) e[i + 1] = name(k)[i];
	e[12] = 0;
	int r = ztsGetStandardInterval(VER, &s, e, sizeof e, &op);
	int day = VER == 6 ? 86400 : 21600;
	ENS("irregular block for the interval", r == 1 && s == -(I < 1800 ? 1 : I < day ? 2 : I < 604800 ? 3 : I < 2592000 ? 4 : 5));
	COVER("tilde");
}
/* enumeration visits every standard interval once, in order, and ends */
void h_enum(void)
{
	IN_R(int, k, 0, NT - 1);
	REQ(has(k));
	int s = 0, op = BEGIN_ENUMERATION; char e[13] = "";
	int r = ztsGetStandardInterval(VER, &s, e, sizeof e, &op);
	ENS("starts with the first", r == 0 && s == TS[0] && same(e, name(0)) && op == CONTINUE_ENUMERATION);
	s = TS[k];
	int nx = -1;
	for (int i = NT - 1; i > k; i--) if (has(i)) nx = i;
	r = ztsGetStandardInterval(VER, &s, e, sizeof e, &op);
	if (nx < 0) ENS("ends after the last", r == STATUS_NOT_OKAY && s == 0);
	else ENS("goes on with the next", r == 0 && s == TS[nx] && same(e, name(nx)) && op == CONTINUE_ENUMERATION);
	COVER("enum");
}
