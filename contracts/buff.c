/* Contracts: buffered record input and output (C17): zputBuff, zgetBuff over zput, zget.
 * Ghost view: one int of the file, at ghost int address gW, its value on disk gDisk.  Its logical value is the buffer's where the
 * buffer holds it, the disk's elsewhere; a clean buffer agrees with the disk. */
#include "hv.h"
#include <stdlib.h>
#include "heclib7.h"
#include "zdssKeys.h"
#include "zdssVals.h"
#include "hecdssInternal.h"
#include "zstubs.h"
#define N 4096                       /* ints of the largest buffer and request */
#define FS 1000000                  /* words of the largest file */
long long gW; int gDisk, gOldB; long long *gCtl; int *gSrc;
static int gErr;
#ifdef HV_NATIVE
#define DISKN 3000
static int disk_[DISKN];
int zput(long long *ifltab, long long a, int *p, int nw, int ws) { int n = nw * ws; for (int i = 0; i < n; i++) { if (2 * a + i >= DISKN) hv_skip("disk"); disk_[2 * a + i] = p[i]; } return gErr; }
int zget(long long *ifltab, long long a, int *p, int nw, int ws) { int n = nw * ws; for (int i = 0; i < n; i++) { if (2 * a + i >= DISKN) hv_skip("disk"); p[i] = disk_[2 * a + i]; } return gErr; }
#define DISK() disk_[gW]
#else
#define DISK() gDisk
#if !defined(HV_T2)
/* contract of zput: the ints go to the file at their address */
int zput(long long *ifltab, long long a, int *p, int nw, int ws)
{
	long long n = (long long)nw * ws;
	__CPROVER_assert(n >= 0 && a >= 0 && __CPROVER_r_ok(p, n * 4), "zput requires ints to write");
	int s = nondet_int();
	__CPROVER_assume(s == gErr || s == 0);
	if (s == 0 && gW >= 2 * a && gW < 2 * a + n) gDisk = p[gW - 2 * a];
	return s;
}
/* contract of zget: the ints of the file at their address */
int zget(long long *ifltab, long long a, int *p, int nw, int ws)
{
	long long n = (long long)nw * ws;
	__CPROVER_assert(n >= 0 && a >= 0 && __CPROVER_w_ok(p, n * 4), "zget requires room for the ints");
	int s = nondet_int();
	__CPROVER_assume(s == gErr || s == 0);
	int k = gW >= 2 * a && gW < 2 * a + n;
	__CPROVER_havoc_object(p);
	if (s == 0 && k) __CPROVER_assume(p[gW - 2 * a] == gDisk);
	return s;
}
int snprintf(char *b, size_t n, const char *f, ...) { b[0] = 0; return 0; }
#endif
#endif
static long long ctl[4], ift[64], hdr[64]; static int *buf;
static int IN_BUF(void) { return ctl[BUFF_STAT] != BUFF_STAT_UNUSED && gW >= 2 * ctl[BUFF_ADDRESS] && gW < 2 * ctl[BUFF_ADDRESS] + ctl[BUFF_INTS_USED]; }
static int LV(void) { return IN_BUF() ? buf[gW - 2 * ctl[BUFF_ADDRESS]] : DISK(); }
static int valid(void) { return ctl[BUFF_STAT] >= 0 && ctl[BUFF_STAT] <= 2 && ctl[BUFF_INTS_USED] >= 0 && ctl[BUFF_INTS_USED] <= ctl[BUFF_SIZE] && ctl[BUFF_ADDRESS] >= 0 && (ctl[BUFF_STAT] != BUFF_STAT_NOT_DIRTY || !IN_BUF() || buf[gW - 2 * ctl[BUFF_ADDRESS]] == DISK()); }
#ifdef HV_NATIVE
#define BIG 300
#else
#define BIG N
#endif
static int *ints(int n) { int *q = malloc(N * sizeof(int)); REQ(q != 0); return q + N - n; }   /* n ints at the end of an object */
static void state(void)
{
	IN_R(int, size, 0, BIG); IN_R(int, stat, 0, 2); IN_R(long long, addr, 0, FS); IN_R(int, used, 0, BIG); IN_R(int, err, -30000, -10); IN_R(long long, w, 0, 2 * FS); IN(int, dv); IN(int, bv); IN_R(long long, fsize, 0, FS);
	REQ(used <= size && size % 2 == 0);
#ifdef HV_NATIVE
	addr %= 500; w %= 1000; err = 0;
	for (int i = 0; i < DISKN; i++) disk_[i] = i * 7 + 1;
	fsize = DISKN / 2;
#endif
	zdssKeys.kfileHeader = 7; zdssFileKeys.kfileSize = 9;
	ift[7] = (long long)hdr; hdr[9] = fsize;
	ctl[BUFF_SIZE] = size; ctl[BUFF_STAT] = stat; ctl[BUFF_ADDRESS] = addr; ctl[BUFF_INTS_USED] = used;
	buf = ints(size);
	gW = w; gErr = err; DISK() = dv;
#ifdef HV_NATIVE
	for (int i = 0; i < size; i++) buf[i] = stat == 1 ? disk_[2 * addr + i] : -i - 5;
#endif
	if (IN_BUF()) buf[gW - 2 * addr] = stat == BUFF_STAT_NOT_DIRTY ? dv : bv;
	REQ(valid());
	gOldB = LV(); gCtl = ctl;
}
static int disjoint(long long a, int n) { return ctl[BUFF_STAT] == BUFF_STAT_UNUSED || 2 * a + n <= 2 * ctl[BUFF_ADDRESS] || 2 * a >= 2 * ctl[BUFF_ADDRESS] + ctl[BUFF_INTS_USED]; }
#define IN_REQUEST() IN_R(long long, a, 0, FS); IN_R(int, nw, 0, BIG); IN_R(int, act, 0, 2); const int ws = WS; int n = nw * ws; REQ(n <= BIG)
#ifdef HV_NATIVE
#define NATIVE_A() a = ctl[BUFF_ADDRESS] + a % 200 - 60; if (a < 0) a = 0
#else
#define NATIVE_A()
#endif
void h_put(void)
{
	state();
	IN_REQUEST(); IN(int, v);
	NATIVE_A();
	int *p = ints(n);
	int mine = gW >= 2 * a && gW < 2 * a + n;
	gSrc = p;
#ifdef HV_NATIVE
	for (int i = 0; i < n; i++) p[i] = 1000000 + i;
#endif
	if (mine) p[gW - 2 * a] = v;
	long long off = 2 * (a - ctl[BUFF_ADDRESS]), U = ctl[BUFF_INTS_USED];
	int inside = ctl[BUFF_STAT] != BUFF_STAT_UNUSED && off >= 0 && off + n <= ctl[BUFF_SIZE];
	REQ(act == BUFF_NO_ACTION || (n >= ctl[BUFF_SIZE] && !inside) ? disjoint(a, n) : 1);   /* what bypasses the buffer does not overlap it */
	REQ(!inside || off <= U + U % 2);                                              /* data follow what is buffered, up to the word boundary */
	REQ(!(inside && gW == 2 * ctl[BUFF_ADDRESS] + U && U % 2 && !mine));           /* (the spare int of a word has no value) */
	int r = zputBuff(ift, a, p, nw, ws, act, ctl, buf);
	if (r == 0) {
		ENS("valid buffer", valid());
		ENS("the ints written, and all others as they were", LV() == (mine ? v : gOldB));
		if (act == BUFF_WRITE_FLUSH) ENS("flushed", ctl[BUFF_STAT] != BUFF_STAT_DIRTY && DISK() == LV());
	}
	ENS("buffer size unchanged", ctl[BUFF_SIZE] >= ctl[BUFF_INTS_USED]);
	COVER("put");
}
void h_get(void)
{
	state();
	IN_REQUEST();
	NATIVE_A();
	int *p = ints(n);
	int mine = gW >= 2 * a && gW < 2 * a + n;
	long long U = ctl[BUFF_INTS_USED];
	REQ(act != BUFF_LOAD || a <= hdr[9]);
	REQ(act != BUFF_NO_ACTION || ctl[BUFF_STAT] != BUFF_STAT_DIRTY || disjoint(a, n));
	REQ(!(ctl[BUFF_STAT] != BUFF_STAT_UNUSED && gW == 2 * ctl[BUFF_ADDRESS] + U && U % 2));
	gSrc = p;
	int r = zgetBuff(ift, a, p, nw, ws, act, ctl, buf);
	if (r == 0) {
		ENS("valid buffer", valid());
		ENS("reading changes nothing", LV() == gOldB);
		if (mine && act != BUFF_LOAD) ENS("what was written last", p[gW - 2 * a] == gOldB);
	}
	COVER("get");
}
