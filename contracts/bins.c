/* Contracts: the pathname index (C11): zbinUpdate (adding an entry), zbinNew (lengthening a chain of bins), zcheckInternal (finding an entry). */
#include "hv.h"
#include <stdlib.h>
#include <string.h>
#include "heclib7.h"
#include "zdssKeys.h"
#include "zdssVals.h"
#include "hecdssInternal.h"
#include "zstubs.h"
#if defined(HV_NATIVE)
#define __CPROVER_assume(x) ((void)0)
#define __CPROVER_assert(c, l) ENS(l, c)
#endif
#if defined(HV_NATIVE) || defined(HV_T2)
#define CONC 1
#define CAPB 44
#define NB 3
#else
#define CAPB 400
#endif
#include "ghost_bins.h"
int gIsize, gLen, gW, gPs, gOldSame, gStarted; long long gHash, gAddr, gW0, gLink, gOldHash, gOldStat, gOldLen; char *gB;
int gMatch, gWanted, gBin, gMB, gMO; long long gNever, gInfo;
long long gHdrP, gPbP;
int gPuts, gNews; static long long ift[150], hdr[160], *pb; static int rs_, fail_; static long long info_; static char *path_;
#ifdef CONC
static long long store_[NB + 1][CAPB]; static int nb_;
static long long addr_(int b) { return 1000 + 100 * b; }
#endif
#ifdef CONC
#define NDL(v) (v)
#define MAYBE 1
#define BAD zerrorEncode(4, 0, 7, 12, 0)
#else
#define NDL(v) nondet_longlong()
#define MAYBE (nondet_int() & 1)
#define BAD -77
#endif
#ifdef UPDATE
#if !defined(CONC)
/* (pathnames have at most 392 characters) */
size_t strlen(const char *s) { __CPROVER_assert(s == path_, "the pathname"); return (size_t)gLen; }
int snprintf(char *b, size_t n, const char *f, ...) { __CPROVER_assert(__CPROVER_w_ok(b, n) && n > 0, "room for the text"); b[0] = 0; return 0; }
/* contract of zpathnameCompare (C15): same text but for case, here of the entry in hand */
int zpathnameCompare(const char *a, long long *b, size_t n) { __CPROVER_assert(a == path_ && n == (size_t)gLen && __CPROVER_same_object(b, pb), "the entry's pathname"); return gOldSame; }
/* contract of charLong (C10): writes the longs of the text, nothing else */
int charLong(void *from, void *to, int n, int len, int zero, int fill)
{
	if (__CPROVER_same_object(to, pb)) {
		long long at = (long long *)to - pb;
		__CPROVER_assert(from == path_ && n == gLen && at >= 0 && at + gPs <= gIsize, "the pathname goes inside the bin");
		if (gW >= at && gW < at + gPs) pb[gW] = nondet_longlong();
	}
	return gPs;
}
#endif
/* the bin in the buffer as last read */
int zget(long long *f, long long a, int *buf, int n, int ws)
{
	__CPROVER_assert((long long *)buf == pb && n == gIsize && ws == 2, "a whole bin is read into the bin buffer");
	if (fail_ == 1 && MAYBE) return BAD;
#ifdef CONC
	for (int b = 0; b <= NB; b++) if (a == addr_(b)) for (int i = 0; i < CAPB; i++) if (i < n) pb[i] = store_[b][i];
#else
	__CPROVER_havoc_object(pb); __CPROVER_havoc_object(gB); __CPROVER_assume(gB[0] == 1);
	__CPROVER_assume(pb[gIsize - 1] == 0 || (pb[gIsize - 1] >= 100 && pb[gIsize - 1] < 1000000000000LL));
#endif
	gAddr = a; gW0 = pb[gW]; gLink = pb[gIsize - 1];
	return 0;
}
int zput(long long *f, long long a, int *buf, int n, int ws)
{
	int at = (int)(f[zdssKeys.kpathBinAddress] - a);
	if (fail_ == 2) return BAD;
	gPuts++;
#ifdef CONC
	for (int b = 0; b <= NB; b++) if (a == addr_(b)) { gOldHash = at >= 0 && at < CAPB ? store_[b][at] : 1; gOldStat = gOldHash ? store_[b][at + 1] : 0; gOldLen = gOldHash ? store_[b][at + 2] : 0; gB[at < 0 || at > CAPB ? 0 : at] = 1;
		for (int i = 0, j = 0; i < CAPB && j < 3; j++) { if (i == at) break; if (i > at) { gB[at] = 0; break; } if (store_[b][i] == 0) break; i += 7 + BSIZE(store_[b][i + 2]); } gOldSame = 1; }
#endif
	__CPROVER_assert(a == gAddr && (long long *)buf == pb && n == gIsize && ws == 2, "the bin goes back where it was read");
	__CPROVER_assert(at >= 0 && at + 7 + gPs <= gIsize - 2, "the entry leaves room for the link and the end mark");
	if (gW < at || gW >= at + 7 + gPs) __CPROVER_assert(pb[gW] == gW0, "the rest of the bin, other entries and the link, as it was");
	__CPROVER_assert(gB[at], "entries begin where entries end");
	__CPROVER_assert(gOldHash == 0 || ((gOldStat == 11 || gOldStat == 12) && BSIZE(gOldLen) == gPs) || (gOldHash == gHash && BCHARS(gOldLen) == gLen && gOldSame), "only free, deleted or its own space is used");
	__CPROVER_assert(pb[at] == gHash && pb[at + 1] == rs_ && pb[at + 3] == info_, "hash, status and address of the record");
	__CPROVER_assert(BCHARS(pb[at + 2]) == gLen && BSIZE(pb[at + 2]) == gPs, "length of the pathname");
	__CPROVER_assert(f[zdssKeys.kinfoAddInBin] == a + at + 3, "where the record's address is");
#ifdef CONC
	for (int i = 0; i < CAPB - 7; i++) if (i < gLen) __CPROVER_assert(((char *)&pb[at + 7])[i] == path_[i], "the pathname");
#endif
	return 0;
}
/* contract of zbinNew (unit zbinNew): a new empty bin behind the last one of the chain */
int zbinNew(long long *f)
{
	__CPROVER_assert(gLink == 0 && f[zdssKeys.kbinAddCurrent] == gAddr, "a bin is added behind the last bin of the chain");
	gNews++;
	if (fail_ == 3) return BAD;
#ifdef CONC
	for (int i = 0; i < CAPB; i++) { if (i < gIsize) pb[i] = 0; store_[NB][i] = 0; }
	gAddr = addr_(NB);
#else
	__CPROVER_havoc_object(pb); __CPROVER_havoc_object(gB);
	__CPROVER_assume(pb[gW] == 0 && pb[gIsize - 1] == 0 && gB[0] == 1);
	gAddr = nondet_longlong(); __CPROVER_assume(gAddr >= 100 && gAddr < 1000000000000LL);
#endif
	f[zdssKeys.kbinAddCurrent] = gAddr; gW0 = 0; gLink = 0; gOldHash = 0;
	return 0;
}
void h_update(void)
{
	IN_R(int, isize, 30, CAPB); IN_R(int, len, 1, CAPB > 100 ? 392 : 24); IN_R(int, w, 0, CAPB - 1); IN_R(int, level, 0, 3); IN_R(int, fail, 0, 3); IN_R(long long, h, -3, 4); IN_R(int, rs, 0, 2); IN_R(long long, info, 100, 1000000); IN_R(int, type, 0, 700);
#ifndef CONC
	h = nondet_longlong();
#endif
	gPs = (len - 1) / 8 + 1;
	REQ(h != 0 && w < isize && gPs + 7 <= isize - 2);
	KEYS();
	int *bk = (int *)&zdssBinKeys; for (int i = 0; i < 8; i++) bk[i] = i; zdssBinKeys.kbinSize = 7;
	long long *o = malloc(isize * sizeof(long long)); gB = malloc(CAPB + 60); path_ = malloc(400);
	REQ(o && gB && path_);
	pb = o;
	gIsize = isize; gLen = len; gW = w; gHash = h; gPuts = gNews = 0; fail_ = fail; rs_ = rs; info_ = info;
	ift[zdssKeys.kfileHeader] = gHdrP = (long long)hdr; ift[zdssKeys.kpathBin] = gPbP = (long long)pb; ift[zdssKeys.klenLastPath] = len; ift[zdssKeys.kpathnameHash] = h; ift[zdssKeys.kreclaimLevel] = level;
	hdr[zdssFileKeys.kbinSize] = isize; hdr[zdssFileKeys.kreclaimedPaths] = hdr[zdssFileKeys.kbinsOverflow] = 3;
#ifdef CONC
	IN_R(int, nb, 1, NB); IN_R(int, ws, 0, NB); IN_R(int, cur, 0, NB - 1);
	REQ(ws <= nb && cur < nb);
	for (int i = 0; i < 400; i++) path_[i] = i < len ? 'a' : 0;
	for (int b = 0; b < NB; b++) {
		IN_R(int, ne, 0, 4); int at = 0;
		for (int i = 0; i < CAPB; i++) store_[b][i] = 0;
		for (int e = 0; e < 4; e++) { IN_R(int, c, 1, 24); IN_R(int, st, 0, 3); IN_R(int, eh, 1, 4); IN_R(char, ch, 'A', 'B');
			int s = (c - 1) / 8 + 1;
			if (e < ne && at + 7 + s <= isize - 2) { store_[b][at] = eh; store_[b][at + 1] = st < 2 ? st * 10 : st + 9; store_[b][at + 2] = ((long long)s << 32) | c; store_[b][at + 3] = 5; for (int i = 0; i < 24; i++) if (i < c) ((char *)&store_[b][at + 7])[i] = ch; at += 7 + s; } }
		if (b + 1 < nb) store_[b][isize - 1] = addr_(b + 1);
	}
	ift[zdssKeys.kbinWithSpace] = ws ? addr_(ws - 1) : 0;
	ift[zdssKeys.kbinAddCurrent] = addr_(cur);
	fail_ = 0; zget(ift, addr_(cur), (int *)pb, isize, 2); fail_ = fail;
#else
	long long ws = nondet_longlong(), cur = nondet_longlong();
	REQ(ws == 0 || (ws >= 100 && ws < 1000000000000LL)); REQ(cur >= 100 && cur < 1000000000000LL);
	ift[zdssKeys.kbinWithSpace] = ws; ift[zdssKeys.kbinAddCurrent] = gAddr = cur;
	REQ(gB[0] == 1 && (pb[isize - 1] == 0 || (pb[isize - 1] >= 100 && pb[isize - 1] < 1000000000000LL)));
	gW0 = pb[w]; gLink = pb[isize - 1];
#endif
	int r = zbinUpdate(ift, path_, info, rs, type);
	if (r == 0) ENS("written once", gPuts == 1);
	else ENS("an error comes from below, nothing is written then", r <= -10 && gPuts == 0);
	if (fail == 3 && gNews) ENS("no new bin: nothing is written", r != 0);
	COVER("update");
}
#endif

#ifdef NEWBIN
static int rem_, per_, atEof_; static long long next_, space_, cur_, tab_; int gSpaces, gLinks, gBlocks, gClear, gEof;
/* contract of zgetFileSpace (C18): room at the end of the file or in a released extent */
long long zgetFileSpace(long long *f, int n, int what, int *eof)
{
	__CPROVER_assert(n == gIsize * per_ + 1, "room for a block of bins and its link");
	gSpaces++; *eof = atEof_;
	return space_;
}
int zwriteEOF(long long *f) { gEof++; return 0; }
int zget(long long *f, long long a, int *buf, int n, int ws)
{
	__CPROVER_assert((long long *)buf == pb && a == cur_ && n == gIsize && ws == 2, "the last bin of the chain is read");
	if (fail_ == 1) return BAD;
	return 0;
}
int zput(long long *f, long long a, int *buf, int n, int ws)
{
	__CPROVER_assert(ws == 2, "longs are written");
	if (n == 1 && tab_ != 0 && gLinks == 0 && a == cur_ + gIsize - 1) {
		if (fail_ == 2) return BAD;
		__CPROVER_assert(*(long long *)buf == (rem_ <= 0 ? space_ : next_), "the last bin leads to the new one");
		gLinks++;
	} else if (n == 1) {
		if (fail_ == 3) return BAD;
		__CPROVER_assert(rem_ <= 0 && a == next_ && *(long long *)buf == space_, "the full block leads to the new one");
		gBlocks++;
	} else {
		if (fail_ == 4) return BAD;
		__CPROVER_assert(rem_ <= 0 && a == space_ && n == -(gIsize * per_ + 1) && *(long long *)buf == 0, "the new block is zero");
		gClear++;
	}
	return 0;
}
void h_new(void)
{
	IN_R(int, isize, 30, CAPB); IN_R(int, w, 0, CAPB - 1); IN_R(int, rem, -1, 100); IN_R(int, per, 1, 100); IN_R(int, eof, 0, 1); IN_R(long long, next, 100, 1000000000000LL); IN_R(long long, space, 100, 1000000000000LL);
	IN_R(long long, cur, 100, 1000000000000LL); IN_R(int, tab, 0, 1); IN_R(int, fail, 0, 4);
	REQ(w < isize && rem < per && next != cur + isize - 1);
	KEYS();
	long long *o = malloc(isize * sizeof(long long)); REQ(o);
	pb = o; gIsize = isize; gW = w; fail_ = fail; rem_ = rem; per_ = per; atEof_ = eof; next_ = next; space_ = space; cur_ = cur; tab_ = tab;
	gSpaces = gLinks = gBlocks = gClear = gEof = 0;
	ift[zdssKeys.kfileHeader] = (long long)hdr; ift[zdssKeys.kpathBin] = (long long)pb; ift[zdssKeys.khashTableBinAdd] = tab; ift[zdssKeys.kbinAddCurrent] = tab ? cur : 0;
	hdr[zdssFileKeys.kbinSize] = isize; hdr[zdssFileKeys.kbinsPerBlock] = per; hdr[zdssFileKeys.kbinsRemainInBlock] = rem; hdr[zdssFileKeys.kaddNextEmptyBin] = next; hdr[zdssFileKeys.ktotalBins] = 3;
	int r = zbinNew(ift);
	if (r == 0) {
		ENS("the new bin is the next empty one", ift[zdssKeys.kbinAddCurrent] == (rem <= 0 ? space : next));
		ENS("the one after it is empty next", hdr[zdssFileKeys.kaddNextEmptyBin] == (rem <= 0 ? space : next) + isize && hdr[zdssFileKeys.kbinsRemainInBlock] == (rem <= 0 ? per : rem) - 1);
		ENS("linked to the chain exactly where there is one", gLinks == tab && gSpaces == (rem <= 0) && gBlocks == (rem <= 0) && gClear == (rem <= 0));
		ENS("the end of the file is marked where it moved", gEof == (rem <= 0 && eof));
		ENS("the bin is empty", pb[w] == 0);
	} else ENS("an error comes from below", r <= -10 && (fail == 1 || fail == 2 || fail == 3 || fail == 4));
	if (fail == 1 && tab || fail == 2 && tab || (fail == 3 || fail == 4) && rem <= 0) ENS("an error is told", r != 0);
	COVER("new");
}
#endif

#ifdef CHECK
/* contracts of callees: zhash (C15: some hash inside the table, one not zero), the rest is not looked at */
static int th_, len2_; int gGets, gFailed, gVSeen, gWO, gAlias; long long gVA, gTabAdd, gAl, gPA, gPI, gPB; char *gSm;
int zcheckKeys(long long *f) { return fail_ == 4 ? BAD : 0; }
int zcheckMultiUser(long long *f) { return 0; }
int zpermRead(long long *f) { if (fail_ == 2 && MAYBE) { gFailed = 1; return BAD; } return 0; }
int zhandle(long long *f) { return 1; }
int zhash(long long *f, const char *p, int n, int *t, long long *h) { __CPROVER_assert(p == path_ && n == gLen, "the pathname's hash"); *t = th_; *h = gHash; return 0; }
#if !defined(CONC)
size_t strlen(const char *s) { __CPROVER_assert(s == path_, "the pathname"); return (size_t)len2_; }
int snprintf(char *b, size_t n, const char *f, ...) { __CPROVER_assert(__CPROVER_w_ok(b, n) && n > 0, "room for the text"); b[0] = 0; return 0; }
#endif
/* contract of zpathnameCompare (C15): gSm[i]: the entry at word i of the bin has the same text */
int zpathnameCompare(const char *a, long long *b, size_t n)
{
	__CPROVER_assert(a == path_ && n == (size_t)gLen, "the pathname");
	if (b == &ift[zdssKeys.kpathAddressInBin]) return 0;       /* (the address of a pathname is no text of one) */
	long long at = b - pb - 7;
	__CPROVER_assert(at >= 0 && at < gIsize && gB[at] && BCHARS(pb[at + 2]) == gLen, "the pathname of an entry of this length");
	return gSm[at];
}
int zget(long long *f, long long a, int *buf, int n, int ws)
{
	__CPROVER_assert(ws == 2, "longs are read");
	if (fail_ == 1 && MAYBE) { gFailed = 1; return BAD; }
	if (gAlias) __CPROVER_assert((long long *)buf != pb && (long long *)buf != &ift[zdssKeys.khashTableBinAdd], "no bin is read behind the one found");
	if ((long long *)buf == &ift[zdssKeys.khashTableBinAdd]) {
		__CPROVER_assert(n == 1 && a == th_ + hdr[zdssFileKeys.kaddHashTableStart], "the hash table's place for this pathname");
		*(long long *)buf = gTabAdd;
	} else if ((long long *)buf == pb) {
		__CPROVER_assert(n == gIsize, "a whole bin");
		__CPROVER_assert(a == (gGets ? gLink : gTabAdd), "the first bin, then the next of the chain");
		if (gGets) __CPROVER_assert(!WMATCH(pb), "no entry that matches is passed");
		gGets = 1; gAddr = a; if (a == gVA) gVSeen = 1;
#ifdef CONC
		for (int b = 0; b < NB; b++) if (a == addr_(b)) for (int i = 0; i < CAPB; i++) if (i < n) pb[i] = store_[b][i];
		for (int i = 0; i <= CAPB; i++) gB[i] = gSm[i] = 0;
		for (int i = 0, j = 0; i < CAPB && j < 5; j++) { gB[i] = 1; if (i + 8 > gIsize || pb[i] == 0) break; gSm[i] = ((char *)&pb[i + 7])[0] == path_[0]; i += 7 + BSIZE(pb[i + 2]); }
#else
		__CPROVER_havoc_object(pb); __CPROVER_havoc_object(gB); __CPROVER_havoc_object(gSm); __CPROVER_assume(gB[0] == 1);
		__CPROVER_assume(pb[gIsize - 1] == 0 || (pb[gIsize - 1] >= 100 && pb[gIsize - 1] < GADDRMAX));
#endif
		gLink = pb[gIsize - 1];
	} else {
		__CPROVER_assert(n == 8 && a == f[zdssKeys.kaddInfoLastPath], "where the alias leads");
		gAl = a;
		for (int i = 0; i < 8; i++) ((long long *)buf)[i] = NDL(i == 0 ? DSS_INFO_FLAG : 0);
	}
	return 0;
}
void h_check(void)
{
	IN_R(int, isize, 30, CAPB); IN_R(int, len, 1, CAPB > 100 ? 500 : 24); IN_R(int, wo, 0, CAPB - 1); IN_R(int, level, 0, 3); IN_R(int, fail, 0, 4); IN_R(long long, h, -3, 4); IN_R(int, wanted, 0, 12); IN_R(int, th, 0, 100000); IN_R(int, tab, 0, 1); IN_R(int, locked, 0, 1);
#ifndef CONC
	h = nondet_longlong();
#endif
	REQ(h != 0 && wo < isize - 2);
	if (wanted == 5) wanted = REC_STATUS_ANY;
	KEYS();
	int *bk = (int *)&zdssBinKeys; for (int i = 0; i < 8; i++) bk[i] = i; zdssBinKeys.kbinSize = 7;
	long long *o = malloc(isize * sizeof(long long)); static long long info[100]; gB = malloc(CAPB + 60); gSm = malloc(CAPB + 60); path_ = malloc(400);
	REQ(o && gB && path_ && gSm);
	pb = o; gWanted = wanted; len2_ = len;
	gIsize = isize; gLen = len > 392 ? 392 : len; gWO = wo; gHash = h; fail_ = fail; th_ = th; gGets = gFailed = gVSeen = gAlias = 0; gVA = NDL(1000); gLink = 0;
	ift[zdssKeys.kfileHeader] = gHdrP = (long long)hdr; ift[zdssKeys.kpathBin] = gPbP = (long long)pb; ift[zdssKeys.kinfo] = (long long)info; ift[zdssKeys.kreclaimLevel] = level; ift[zdssKeys.klocked] = locked;
	ift[zdssKeys.kerrorSevere] = 0;
	hdr[zdssFileKeys.kbinSize] = isize; hdr[zdssFileKeys.kaddHashTableStart] = 200; hdr[zdssFileKeys.kfileSize] = NDL(1000);
#ifdef CONC
	IN_R(int, nb, 1, NB); int found = 0; long long fadd = 0;
	for (int i = 0; i < 400; i++) path_[i] = i < len ? 'A' : 0;
	gTabAdd = tab ? addr_(0) : 0;
	for (int b = 0; b < NB; b++) {
		IN_R(int, ne, 0, 4); int at = 0;
		for (int i = 0; i < CAPB; i++) store_[b][i] = 0;
		for (int e = 0; e < 4; e++) { IN_R(int, c, 1, 24); IN_R(int, st, 0, 3); IN_R(int, eh, 1, 4); IN_R(char, ch, 'A', 'B');
			int s = (c - 1) / 8 + 1;
			if (e < ne && at + 7 + s <= isize - 2) { store_[b][at] = eh; store_[b][at + 1] = st < 2 ? st + 1 : st + 9; store_[b][at + 2] = ((long long)s << 32) | c; store_[b][at + 3] = 5; for (int i = 0; i < 24; i++) if (i < c) ((char *)&store_[b][at + 7])[i] = ch;
				if (!found && tab && b < nb && eh == h && c == len && ch == 'A' && STOK(store_[b][at + 1])) { found = 1; fadd = addr_(b) + at; }
				at += 7 + s; } }
		if (b + 1 < nb) store_[b][isize - 1] = addr_(b + 1);
	}
	ift[zdssKeys.kpathnameHash] = 99;
#else
	gTabAdd = nondet_longlong(); REQ(gTabAdd == 0 || (gTabAdd >= 100 && gTabAdd < GADDRMAX));
	ift[zdssKeys.kpathnameHash] = nondet_longlong(); ift[zdssKeys.klenLastPath] = nondet_longlong(); ift[zdssKeys.ktableHash] = nondet_longlong(); ift[zdssKeys.kfound] = nondet_longlong();
	ift[zdssKeys.kmultiUserAccess] = nondet_longlong(); ift[zdssKeys.kfileWritten] = nondet_longlong(); ift[zdssKeys.kaddInfoLastPath] = nondet_longlong(); ift[zdssKeys.klockCheckSet] = nondet_longlong();
#endif
	int r = zcheckInternal(ift, path_, wanted);
	if (r == STATUS_RECORD_FOUND) {
		long long at = ift[zdssKeys.kpathBinAddress] - gAddr;
		ENS("found inside a bin of the chain", gTabAdd != 0 && at >= 0 && at < isize - 2 && gB[at] == 1);
		ENS("what is found is the pathname", pb[at] == gHash && BCHARS(pb[at + 2]) == gLen && gSm[at] == 1);
		ENS("its status is one that is wanted", STOK(pb[at + 1]));
		ENS("the first entry that matches", !(wo < at && WMATCH(pb)));
		ENS("where the record's address is", ift[zdssKeys.kinfoAddInBin] == gAddr + at + 3);
		if ((int)pb[at + 1] != 2 || wanted == 0 || wanted == 2 || wanted == 100) ENS("the record's address", ift[zdssKeys.kaddInfoLastPath] == pb[at + 3]);
		ENS("found is remembered", ift[zdssKeys.kfound] == 1);
	} else if (r == STATUS_RECORD_NOT_FOUND) {
		ENS("not found: every bin of the chain was searched", gTabAdd == 0 || (gGets && gLink == 0 && !WMATCH(pb)));
		ENS("not found is remembered", ift[zdssKeys.kfound] == 0);
		if (gTabAdd) ENS("the last bin is the one in hand", ift[zdssKeys.kbinAddCurrent] == gAddr);
	} else ENS("an error comes from below or from a broken alias", gFailed || fail == 4 || wanted == 1 || wanted > 2);
	if (r == 0 || r == -1) {
		ENS("hash and length for writing", ift[zdssKeys.kpathnameHash] == gHash && ift[zdssKeys.klenLastPath] == gLen && ift[zdssKeys.ktableHash] == th && ift[zdssKeys.khashTableBinAdd] == gTabAdd);
		ENS("a bin with space is one of the chain", ift[zdssKeys.kbinWithSpace] == 0 || ift[zdssKeys.kbinWithSpace] != gVA || gVSeen);
	}
#ifdef CONC
	{ long long ws = ift[zdssKeys.kbinWithSpace]; if (fail == 0) ENS("space inside the chain", ws == 0 || (ws >= addr_(0) && ws < addr_(nb) && (ws - addr_(0)) % 100 == 0)); }
	if (fail == 0 && (found || r == 0)) ENS("the entry", found == (r == 0) && ift[zdssKeys.kpathBinAddress] == fadd);
#endif
	COVER("check");
}
#endif
