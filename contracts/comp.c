/* Contracts: repeat compression of regular data (C09): ztsRegRepeatCompress, ztsRegRepeatUncompress, values of ES ints.
 * Ghost view: value gK; gR[k] is the rank of value k: how many values up to k begin a run of equal values, less one. */
#include "hv.h"
#include <stdlib.h>
#include <string.h>
#include "heclib7.h"
#include "hecdssInternal.h"
#if defined(HV_NATIVE)
#define __CPROVER_assume(x) ((void)0)
#endif
#include "ghost_comp.h"
int gK, gJ, gR[GN + 1], gV0, gV1, *gIn;
#define HW (GN / 32 + 1)
#ifdef FIXN
#define IN_N int n = FIXN
#else
#define IN_N IN_R(int, n, 1, GN)
#endif
#ifdef HV_T2
#define HAVOC_RANKS() gR[0] = 0
#else
#define HAVOC_RANKS() do { __CPROVER_havoc_object(gR); __CPROVER_assume(gR[0] == 0); } while (0)
#endif
static int *arr(int n) { int *q = malloc((GN + 1) * ES * sizeof(int)); REQ(q != 0); return q + ((GN + 1) - n) * ES; }
static int *bits(int n) { int *q = malloc(HW * sizeof(int)); REQ(q != 0); return q + (HW - ((n - 1) / 32 + 1)); }
static void fill(int *d, int n)
{
#ifdef HV_T2
	IN_ARR(int, v, GN * ES);
	for (int i = 0; i < n * ES; i++) d[i] = (int)((unsigned)(v[i] & 3) ^ ((unsigned)(v[i] & 4) << 29));
#endif
}
void h_comp(void)
{
	IN_N; IN_R(int, k, 0, GN - 1); 
#ifdef FIXN
	int room = n;
#else
	IN_R(int, room, 1, GN + 1);
#endif
	REQ(k < n && room >= n);
	int *d = arr(n), *o = arr(room), *h = bits(n), hn = (n - 1) / 32 + 1;
	fill(d, n);
	gK = k; HAVOC_RANKS(); 
#ifdef HV_T2
	for (int i = 0; i < hn; i++) h[i] = 0;
	for (int i = 1; i < n; i++) gR[i] = gR[i - 1] + !SAME(d, i);
#else
	REQ(BIT(h, k) == 0);           /* the flags come in as zeros, and the flag word of bit 0 without it */
	REQ((h[0] & 1) == 0);
#endif
	int r = ztsRegRepeatCompress(d, n, ES, o, room * ES, h, hn);
	ENS("the length of the compressed data", r == (gR[n - 1] + 1) * ES);
	ENS("no more than the data", r <= n * ES && r >= ES);
	ENS("each value stands at its rank", EQ(o, gR[k] * ES, d, k * ES));
	if (k > 0) ENS("a flag for each repeat", BIT(h, k) == SAME(d, k));
	ENS("the first value is no repeat", (h[0] & 1) == 0);
	COVER("comp");
}
void h_uncomp(void)
{
	IN_N; IN_R(int, k, 0, GN - 1);
#ifdef FIXS
	int s = FIXS, e = n;
#else
	IN_R(int, s, 0, GN - 1); IN_R(int, e, 0, GN);
#endif

	REQ(k < n && s < n && e <= n && s <= e && (s == e || (s <= k && k < e)) && (s < e || k == s));
	int cnt = s == e ? 1 : e - s;
	int *d = arr(n), *o = arr(cnt), *h = bits(n);
	fill(d, n);
	gK = k; HAVOC_RANKS(); 
#ifdef HV_T2
	{ IN(int, hb); for (int i = 0; i < HW && i < (n - 1) / 32 + 1; i++) h[i] = hb & ~1; }
	for (int i = 1; i < n; i++) gR[i] = gR[i - 1] + !BIT(h, i);
#else
	REQ((h[0] & 1) == 0);
#endif
	ztsRegRepeatUncompress(s, e, ES, ES, 1, h, d, o, cnt * ES);
	ENS("each value from its rank", EQ(o, (k - s) * ES, d, gR[k] * ES));
	COVER("uncomp");
}
