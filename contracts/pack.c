/* Contracts: characters and numbers in records (C10): charLong, charInt, i4toi8, i8toi4, zswap, zswitchInts, sizes in ints and longs.
 * This machine's byte order (little endian); the branch for the other order is not reached here. */
#include "hv.h"
#include <stdlib.h>
#include <string.h>
#include "heclib7.h"
#include "hecdssInternal.h"
#ifdef HV_T2
#define N 40
#else
#define N 4096
#endif
int gT, gK, gG, gEnd; unsigned char gSrc0, gDst0; long long gL0, gL1; int gI0, gI1;
static unsigned char *to_, *from_; static int n_, max_;
static void buffers(int room)
{
	IN_R(int, n, 0, N); IN_R(int, max, 1, N); IN_R(int, t, 0, N); IN_R(int, g, 0, N - 1); IN(int, c); IN(int, fill);
	n_ = n; max_ = max;
	REQ(g < max && t < (n > 0 ? N : max));
	unsigned char *f = malloc(N + 8), *q = malloc(N);
	REQ(f != 0 && q != 0);
	int cap = room ? 4 * ((max - 1) / 4) + 4 : max;    /* an int array holds whole ints */
	to_ = q + (N - cap);
	from_ = f;
	gG = g; gT = t;
	f[g] = c;
	if (n == 0) f[t] = 0;
#ifdef HV_T2
	for (int i = 0; i < N; i++) if (i != g && i != t) f[i] = (unsigned char)(fill + i) | 1;
	if (n == 0) REQ(g == t || g > t || (unsigned char)c != 0);
#endif
	to_[g] = fill;
	gSrc0 = f[g]; gDst0 = to_[g];
#ifndef HV_T2
	if (n == 0) { REQ(g < t ? gSrc0 != 0 : g > t || gSrc0 == 0); }
#endif
	gK = n > 0 ? (n < max ? n : max) : (t < max ? t + 1 : max);
}
void h_charLong(void)
{
	buffers(0);
	IN_R(int, tolong, 0, 1); IN_R(int, zero, -1, 2);
	gEnd = n_ > 0 && zero >= 0 && !tolong;
	int r = charLong(from_, to_, n_, max_, tolong, zero);
	int words = (n_ - 1) / 8 + 1, pad = zero == 1 ? 8 * words : zero == 2 ? max_ : !tolong && zero == 0 && n_ > 0 ? gK + 1 : 0;
	if (gEnd && pad < gK + 1) pad = gK + 1;
	ENS("the long words of the text", n_ == 0 || r == words);
	ENS("the bytes in order", gG >= gK || to_[gG] == gSrc0);
	ENS("the end is zero where asked", gG < gK || gG >= pad || to_[gG] == 0);
	ENS("nothing else changes", gG < gK || gG < pad || to_[gG] == gDst0);
	COVER("charLong");
}
void h_charInt(void)
{
	buffers(1);
	IN_R(int, toint, 0, 1); IN_R(int, zero, 0, 1);
	REQ(n_ > 0);
	int r = charInt(from_, to_, n_, max_, toint, zero, 0);
	ENS("the ints of the text", r == (gK - 1) / 4 + 1);
	ENS("the bytes in order", gG >= gK || to_[gG] == gSrc0);
	ENS("the end is zero where asked", gG < gK || gG >= (zero ? 4 * r : 0) || to_[gG] == 0);
	ENS("nothing else changes", gG < gK || gG < (zero ? 4 * r : 0) || to_[gG] == gDst0);
	COVER("charInt");
}
void h_pair(void)
{
	IN(int, a); IN(int, b); IN(long long, w);
	int c, d;
	unsigned long long v = i4toi8(a, b);
	i8toi4(v, &c, &d);
	ENS("two ints come back from their long", c == a && d == b);
	int m[2];
	memcpy(m, &v, 8);
	ENS("the ints lie in order in the file", m[0] == a && m[1] == b);
	i8toi4((unsigned long long)w, &c, &d);
	ENS("a long comes back from its ints", (long long)i4toi8(c, d) == w);
	COVER("pair");
}
static long long bswap(unsigned long long v)
{
	v = (v & 0x00000000ffffffffULL) << 32 | v >> 32;
	v = (v & 0x0000ffff0000ffffULL) << 16 | (v >> 16 & 0x0000ffff0000ffffULL);
	return (long long)((v & 0x00ff00ff00ff00ffULL) << 8 | (v >> 8 & 0x00ff00ff00ff00ffULL));
}
void h_swap(void)
{
	IN_R(int, n, 1, N / 2); IN_R(int, g, 0, N / 4 - 1); IN(long long, v);
	int nl = (n - 1) / 2 + 1;
	REQ(g < nl);
	long long *q = malloc(N / 4 * sizeof(long long)), *p;
	REQ(q != 0);
	p = q + (N / 4 - nl);
	p[g] = v; gG = g; gL0 = v; gL1 = bswap(v);
	zswap(p, n);
	ENS("the bytes of each long are reversed", p[g] == gL1);
	ENS("twice is as before", bswap(gL1) == v);
	COVER("swap");
}
void h_switch(void)
{
	IN_R(int, n, 1, N / 2); IN_R(int, g, 0, N / 4 - 1); IN(int, a); IN(int, b);
	int nl = (n - 1) / 2 + 1;
	REQ(g < nl);
	unsigned *q = malloc(N / 2 * sizeof(unsigned)), *p;
	REQ(q != 0);
	p = q + (N / 2 - 2 * nl);
	p[2 * g] = a; p[2 * g + 1] = b; gG = g; gI0 = a; gI1 = b;
	zswitchInts((int *)p, n);
	ENS("the ints of each pair change places", p[2 * g] == (unsigned)b && p[2 * g + 1] == (unsigned)a);
	COVER("switch");
}
void h_sizes(void)
{
	IN_R(int, n, -5, 2000000000);
	int m = n < 0 ? 0 : n;
	ENS("ints of bytes", 4LL * numberIntsInBytes(n) >= m && 4LL * numberIntsInBytes(n) < m + 4);
	ENS("longs of bytes", 8LL * numberLongsInBytes(n) >= m && 8LL * numberLongsInBytes(n) < m + 8);
	ENS("longs of ints", 2LL * numberLongsInInts(n) >= m && 2LL * numberLongsInInts(n) < m + 2);
	if (n < 1000000000) ENS("ints of longs", numberIntsInLongs(n) == 2 * m);
	COVER("sizes");
}
