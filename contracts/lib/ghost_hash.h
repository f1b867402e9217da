/* ghost fold of a pathname, its characters normalised for case */
#define UP(c) ((c) >= 'a' && (c) <= 'z' ? (c) - 32 : (c))
#define NORM(c) ((c) < 32 ? '?' : UP(c))
#define NCH(p, i, n) ((i) < (n) ? NORM((p)[i]) : 0)
extern int gI, gN, gJ, gAll; extern long long *gFold; extern int *gX, *gT;
/* gFold[i]: hash of the first i characters */
#define GFOLD_AT(p, i) __CPROVER_assume(gFold[(i) + 1] == 31 * gFold[i] + NORM((p)[i]))
/* path[i] is the normalised character i, zero behind the text: instance of what is asserted at the ghost index gI */
#define GNORM_AT(q, p, i) __CPROVER_assume((q)[i] == NCH(p, i, gN))
/* gX[k], gT[k]: the accumulator and the folded words after k bits; have bits remain of the byte, need bits to a full word */
#define GBITS(p, have, need, bytes, nt) do { \
	if ((have) > 0) { int m_ = (need) < (have) ? (need) : (have), k_ = 8 * (bytes) - (have), x_ = gX[k_] * (1 << m_), t_ = gT[k_]; \
		if (m_ == (need)) { t_ ^= x_ / 256; x_ %= 256; } \
		if (m_ == (have) && (bytes) < (nt)) x_ += NCH(p, bytes, gN); \
		__CPROVER_assume(gX[k_ + m_] == x_ && gT[k_ + m_] == t_); } \
	else __CPROVER_assume(gX[0] == NCH(p, 0, gN) && gT[0] == 0); } while (0)
#define GCMP_AT(a, b, i) __CPROVER_assume(!gAll || UP((a)[i]) == UP((b)[i]))
#define GLONG_AT(q, l, i) __CPROVER_assume((q)[i] == ((const char *)(l))[i])
