/* ghost view of the pathname bin read last: gB[i]: an entry (or the free rest) begins at word i; word gW; the link to the next bin */
extern int gIsize, gLen, gW, gPs, gOldSame, gStarted, gPuts, gNews; extern long long gHash, gAddr, gW0, gLink, gOldHash, gOldStat, gOldLen; extern char *gB;
extern int gMatch, gWanted, gBin, gMB, gMO; extern long long gNever, gInfo;
#define BSIZE(w) ((int)((w) >> 32))
#define BCHARS(w) ((int)(w))
/* instance at word i of: bins are well formed (an entry has a path of 1 to 49 longs and leaves room for the link, the free rest is zero) */
#define GBIN_AT(p, i) do { gOldHash = (p)[i]; gOldSame = nondet_int() & 1; \
	__CPROVER_assume(!gB[i] || gOldHash == 0 || (i) + 8 <= gIsize - 2); \
	if (gB[i] && gOldHash != 0) { gOldStat = (p)[(i) + 1]; gOldLen = (p)[(i) + 2]; \
		__CPROVER_assume(BSIZE(gOldLen) >= 1 && BSIZE(gOldLen) <= 49 && BCHARS(gOldLen) >= 1 && BCHARS(gOldLen) <= 8 * BSIZE(gOldLen) && BCHARS(gOldLen) > 8 * BSIZE(gOldLen) - 8 && \
			(i) + 7 + BSIZE(gOldLen) <= gIsize - 2 && gB[(i) + 7 + BSIZE(gOldLen)] == 1); } \
	else { gOldStat = 0; gOldLen = 0; if (gB[i] && (i) + 1 < gIsize - 1) __CPROVER_assume((p)[(i) + 1] == 0); } } while (0)
#define BKEEP(f) ((f)[zdssKeys.kfileHeader] == gHdrP && (f)[zdssKeys.kpathBin] == gPbP && (f)[zdssKeys.klenLastPath] == gLen && (f)[zdssKeys.kpathnameHash] == gHash)
extern long long gHdrP, gPbP; int nondet_int(void);
#define GADDRMAX 1000000000000LL
/* looking for an entry: gWO: any word of the bin, gSm[i]: same text */
extern int gGets, gFailed, gVSeen, gWO, gAlias; extern long long gVA, gTabAdd, gAl, gPA, gPI, gPB; extern char *gSm;
#define STOK_(st, wa) ((wa) == 100 ? (st) <= 2 || (st) == 11 || (st) == 12 : (wa) == 0 ? (st) <= 2 : (wa) == 1 ? (st) <= 2 : (wa) == 2 ? (st) == 2 : (st) == (wa) && ((st) == 11 || (st) == 12) || (st) == 2)
#define STOK(st) STOK_((int)(st), gWanted)
#define WMATCH(p) (gWO < gIsize - 9 && gB[gWO] == 1 && (p)[gWO] == gHash && BCHARS((p)[gWO + 2]) == gLen && gSm[gWO] == 1 && STOK((p)[gWO + 1]))
/* instance at word i of: bins are well formed; there are fewer than 2^62 entries */
#define GFIND_AT(p, i) do { GBIN_AT(p, i); __CPROVER_assume(gSm[i] == 0 || gSm[i] == 1); if (gB[i]) { if ((p)[i] == 0) __CPROVER_assume(gWO < (i) || gWO >= gIsize - 9 || (p)[gWO] == 0); \
	else __CPROVER_assume(gWO <= (i) || gWO >= (i) + 7 + BSIZE((p)[(i) + 2]) || gB[gWO] == 0); } __CPROVER_assume(ifltab[zdssKeys.kpathsThisHash] < 4611686018427387904LL); } while (0)
