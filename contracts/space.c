/* Contracts: file space (C18): zgetFileSpace and zreleaseFileSpace over the table of released extents.
 * Ghost view: entry gE of the table segment read last, (gS0,gA0) as read and (gS1,gA1) as written. */
#include "hv.h"
#include <stdlib.h>
#include "heclib7.h"
#include "zdssKeys.h"
#include "zdssVals.h"
#include "hecdssInternal.h"
#include "zstubs.h"
#ifdef HV_T2
#define SEG 4
#define BIG 60
#else
#define SEG 500
#define BIG 0x7fffffff
#endif
static long long ift[16];
long long gH[16], gHdr[16], *gTab;
int gE, gN, gLoc, gReads, gWrites;
long long gS0, gA0, gS1, gA1;
/* contract of zreclaimRead: a table segment of extents, sizes nonnegative, free extents (size 0) have no meaning, or no segment */
#ifdef HV_T2
static int segs_; static int fill_[4 * SEG];
long long *zreclaimRead(long long *ifltab, int *n, int rel)
{
	if (*n >= segs_) return 0;
	for (int i = 0; i < gN; i++) { gTab[2 * i] = fill_[(*n * SEG + i)]; gTab[2 * i + 1] = 1000 + 100 * i; }
	gS0 = gTab[2 * gE]; gA0 = gTab[2 * gE + 1]; gReads++;
	return gTab;
}
int zreclaimWrite(long long *ifltab) { gWrites++; gS1 = gTab[2 * gE]; gA1 = gTab[2 * gE + 1]; return 0; }
#else
long long *zreclaimRead(long long *ifltab, int *n, int rel)
{
	__CPROVER_assert(*n >= 0, "zreclaimRead requires a segment number");
	if (gReads >= 2 || nondet_int()) return (long long *)0;
	gReads++;
	__CPROVER_havoc_object(gTab);
	gS0 = nondet_longlong(); gA0 = nondet_longlong();
	__CPROVER_assume(gS0 >= 0 && gS0 <= 0x7fffffff && gA0 > 0 && gA0 < 1000000000000LL);
	int m = gE + gE;
	__CPROVER_assume(gTab[m] == gS0 && gTab[m + 1] == gA0);
	return gTab;
}
int snprintf(char *b, size_t n, const char *f, ...) { __CPROVER_assert(__CPROVER_w_ok(b, n) && n > 0, "room for the text"); b[0] = 0; return 0; }
int zreclaimWrite(long long *ifltab) { gWrites++; int m = gE + gE; gS1 = gTab[m]; gA1 = gTab[m + 1];  return 0; }
#endif
static int need_; static long long size0_; static int ok_, min_;
static void request(void)
{
	IN_R(int, need, 1, BIG >> 1); IN_R(int, level, 0, 3); IN_R(long long, fsize, 100, 1000000000000LL); IN_R(int, min, 1, BIG > 1000 ? 1000 : 20); IN_R(long long, maxav, 0, BIG); IN_R(int, number, 1, SEG); IN_R(int, rsize, 0, 2 * SEG + 1); IN_R(int, e, 0, SEG - 1);
	REQ(e < number);
	zdssKeys.kfileHeader = 1; zdssKeys.kreclaimLevel = 2;
	zdssFileKeys.kfileSize = 1; zdssFileKeys.kreclaimSize = 2; zdssFileKeys.kreclaimMin = 3; zdssFileKeys.kreclaimMaxAvailable = 4; zdssFileKeys.kreclaimNumber = 5; zdssFileKeys.kreclaimTotal = 6; zdssFileKeys.kreclaimedSpace = 7; zdssFileKeys.kdead = 8;
	gTab = malloc(2 * SEG * sizeof(long long));
	REQ(gTab != 0);
	gReads = gWrites = 0; gS1 = -1;
	gE = e; gN = number; need_ = need; size0_ = fsize; ok_ = level > 1; min_ = min;
	ift[1] = (long long)gH; ift[2] = level;
	gH[1] = fsize; gH[2] = rsize; gH[3] = min; gH[4] = maxav; gH[5] = number; gH[6] = 0; gH[7] = 0; gH[8] = 0;
	for (int i = 1; i <= 8; i++) gHdr[i] = gH[i];
#ifdef HV_T2
	IN_R(int, segs, 1, 2); IN_ARR(int, fill, 2 * SEG);
	for (int i = 0; i < 2 * SEG; i++) { REQ(1); fill_[i] = (fill[i] & 63) < 8 ? 0 : fill[i] & 63; }
	segs_ = segs; gLoc = -1;
#endif
}
void h_get(void)
{
	request();
	IN_R(int, reclaim, 0, 1);
	int eof = 0;
	ok_ = ok_ && reclaim;
	long long r = zgetFileSpace(ift, need_, reclaim, &eof);
	if (gWrites == 0) {
		ENS("space at the end of the file", r == size0_ && eof && gH[1] == size0_ + need_);
	}
	else {
		ENS("one extent reused, with leave", ok_ && gWrites == 1 && !eof && gH[1] == size0_);
		ENS("an extent changes only by giving the space", (gS1 == gS0 && (gA1 == gA0 || gS0 == 0)) || (r == gA0 && need_ <= gS0 && (gS1 == 0 || (gS1 == gS0 - need_ && gA1 == gA0 + need_))));
#ifndef HV_T2
		if (gE == gLoc) ENS("the space given is no longer in the table", r == gA0 && need_ <= gS0 && (gS1 == 0 || (gS1 == gS0 - need_ && gA1 == gA0 + need_)));
#endif
	}
	COVER("get");
}
void h_release(void)
{
	request();
	IN_R(long long, addr, 1, 1000000000000LL);

	zreleaseFileSpace(ift, addr, need_);
	ENS("no space is taken from the end of the file", gH[1] == size0_);
	ENS("written at most once", gWrites <= 1);
	ENS("an extent too small to keep is not put in the table", need_ >= min_ || gWrites == 0);
	if (gWrites == 1) {
		ENS("an extent is kept, or replaced by the released one", (gS1 == gS0 && gA1 == gA0) || (gS1 == need_ && gA1 == addr));
		ENS("only a smaller extent is forgotten", (gS1 == gS0 && gA1 == gA0) || gS0 == 0 || gS0 <= need_);
		ENS("the largest available is known", gH[4] >= need_);
#ifndef HV_T2
		if (gE == gLoc) ENS("the released extent is in the table", gS1 == need_ && gA1 == addr);
#endif
	}
	ENS("the dead space grows by the amount", gH[8] == need_);
	COVER("release");
}
