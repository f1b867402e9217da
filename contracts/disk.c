/* Contracts: file access (C17): zput and zget over zwriteDisk and zreadDisk, those over lseek, read and write.
 * Ghost view: the int of the file at ghost int address gW has the value gDisk. */
#include "hv.h"
#include <stdlib.h>
#include <unistd.h>
#include "heclib7.h"
#include "zdssKeys.h"
#include "zdssVals.h"
#include "hecdssInternal.h"
#include "zstubs.h"
#define N 4096
static long long gW; static int gDisk, gWrites, gHandle;
#if !defined(HV_NATIVE) && !defined(HV_T2)
int zpermRead(long long *ifltab) { return nondet_int() & 1 ? -5 : 0; }
#ifndef REALDISK
/* contracts of zwriteDisk and zreadDisk (units disk_write, disk_read) */
int zwriteDisk(int h, int sw, long long a, void *p, int n)
{
	__CPROVER_assert(h == gHandle && n >= 0 && __CPROVER_r_ok(p, (size_t)n * 4), "zwriteDisk requires ints to write");
	gWrites++;
	if (a < 0 || nondet_int()) return -1;
	if (gW >= 2 * a && gW < 2 * a + n) { const int *ip = p; gDisk = ip[gW - 2 * a]; }
	return 0;
}
int zreadDisk(int h, int sw, long long a, void *p, int n)
{
	__CPROVER_assert(h == gHandle && n >= 0 && __CPROVER_w_ok(p, (size_t)n * 4), "zreadDisk requires room for the ints");
	int ok = a >= 0 && nondet_int();
	__CPROVER_havoc_object(p);
	if (ok && gW >= 2 * a && gW < 2 * a + n) { int *ip = p; __CPROVER_assume(ip[gW - 2 * a] == gDisk); }
	return ok ? 0 : a < 0 ? -2 : -4;
}
void *calloc(size_t n, size_t s)
{
	/* n elements of zeros, seen at the ghost index */
	__CPROVER_assert(s == 8 && n <= N, "size of the zeros");
	static long long z[N];
	return nondet_int() ? (void *)&z[0] : (void *)0;
}
void free(void *p) {}
#else
static long long gPos = -1;
off_t lseek(int h, off_t o, int w)
{
	__CPROVER_assert(h == gHandle && w == SEEK_SET, "lseek from the start of the file");
	if (nondet_int()) return -1;
	gPos = o;
	return o;
}
ssize_t write(int h, const void *p, size_t n)
{
	__CPROVER_assert(h == gHandle && gPos >= 0 && gPos % 4 == 0 && __CPROVER_r_ok(p, n), "write requires a position and the bytes");
	ssize_t k = nondet_int();
	__CPROVER_assume(k >= -1 && k <= (ssize_t)n);
	if (gW >= (gPos >> 2) && gW < (gPos >> 2) + (k >> 2)) { const int *ip = p; gDisk = ip[gW - (gPos >> 2)]; }
	return k;
}
ssize_t read(int h, void *p, size_t n)
{
	__CPROVER_assert(h == gHandle && gPos >= 0 && gPos % 4 == 0 && __CPROVER_w_ok(p, n), "read requires a position and room");
	ssize_t k = nondet_int();
	__CPROVER_assume(k >= -1 && k <= (ssize_t)n);
	__CPROVER_havoc_object(p);
	if (gW >= (gPos >> 2) && gW < (gPos >> 2) + (k >> 2)) { int *ip = p; __CPROVER_assume(ip[gW - (gPos >> 2)] == gDisk); }
	return k;
}
#endif
#endif
#if !defined(HV_NATIVE) && !defined(HV_T2)
void zswap(long long *p, int n) { __CPROVER_assert(0, "no byte swapping on a file of this machine"); }
#endif
static long long ift[16], hdr[16];
static int *p_, n_, nw_; static long long a_; static int mine, v_, old_;
static void request(int neg)
{
	IN_R(long long, a, -5, 1000000); IN_R(int, nw, -N, N); IN_R(int, h, 3, 100); IN_R(long long, w, 0, 2000000); IN(int, v); IN(int, dv); IN_R(long long, fsize, 0, 1000000); IN_R(int, lock, 0, 1);
	REQ(neg || nw >= 0);
	zdssKeys.kfileHeader = 1; zdssKeys.klocked = 2; zdssKeys.khandle = 3; zdssKeys.kswap = 4; zdssKeys.kaddLast = 5; zdssKeys.kfileWritten = 6; zdssKeys.kwritingNow = 7; zdssKeys.knumberWrites = 8; zdssKeys.kwritesSinceFlush = 9; zdssKeys.knumberReads = 10; zdssFileKeys.kfileSize = 1;
	n_ = nw * WS; nw_ = nw; a_ = a;
	REQ(n_ <= N && n_ >= -N);
	int *q = malloc(N * sizeof(int));
	REQ(q != 0);
	int m = n_ < 0 ? 0 : n_;
	p_ = q + N - m;
	gW = w; gDisk = old_ = dv; gHandle = h; v_ = v;
	mine = gW >= 2 * a && gW < 2 * a + (n_ < 0 ? -n_ : n_);
	if (mine && n_ > 0) p_[gW - 2 * a] = v;
	if (n_ < 0) v_ = 0;
	ift[zdssKeys.kfileHeader] = (long long)hdr; ift[zdssKeys.klocked] = lock; ift[zdssKeys.khandle] = h; ift[zdssKeys.kswap] = 0;
	hdr[zdssFileKeys.kfileSize] = fsize;
}
#ifndef REALDISK
void h_put(void)
{
	request(1);
	int locked = ift[zdssKeys.klocked] != 0;
	int r = zput(ift, a_, p_, nw_, WS);
	ENS("written only when locked", locked || (r != 0 && gWrites == 0));
	if (r == 0) ENS("the ints of the request and no others", gDisk == (mine ? v_ : old_));
	if (!mine) ENS("nothing else changes", gDisk == old_);
	if (locked && a_ >= 0 && a_ <= hdr[zdssFileKeys.kfileSize] && n_ && gWrites == 0) ENS("accepted, unless memory is exhausted", n_ < 0);
	COVER("put");
}
void h_get(void)
{
	request(0);
	int r = zget(ift, a_, p_, nw_, WS);
	if (r == 0 && mine) ENS("the ints at the address", p_[gW - 2 * a_] == gDisk);
	ENS("reading changes nothing", gDisk == old_);
	COVER("get");
}
#else
void h_write(void)
{
	request(0);
	int r = zwriteDisk(gHandle, 0, a_, p_, n_);
	if (r == 0) ENS("the ints of the request and no others", gDisk == (mine ? v_ : old_));
	if (!mine) ENS("nothing else changes", gDisk == old_);
	COVER("write");
}
void h_read(void)
{
	request(0);
	int r = zreadDisk(gHandle, 0, a_, p_, n_);
	if (r == 0 && mine) ENS("the ints at the address", p_[gW - 2 * a_] == gDisk);
	ENS("reading changes nothing", gDisk == old_);
	COVER("read");
}
#endif
