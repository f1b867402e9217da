extern long long *gTab, gH[16], gHdr[16], gS0, gA0, gS1, gA1; extern int gE, gN, gLoc, gReads, gWrites;
#define GTOP (gH[1] == gHdr[1] && gH[2] == gHdr[2] && gH[3] == gHdr[3] && gH[4] == gHdr[4] && gH[5] == gHdr[5] && gH[6] == gHdr[6] && gH[7] == gHdr[7] && gH[8] == gHdr[8])
/* contract of zreclaimRead, at entry i: a valid extent */
#define GEXT_AT(a, i) __CPROVER_assume((a)[2 * (i)] >= 0 && (a)[2 * (i)] <= 0x7fffffff && (a)[2 * (i) + 1] > 0 && (a)[2 * (i) + 1] < 1000000000000LL)
