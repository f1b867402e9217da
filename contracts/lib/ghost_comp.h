#ifdef HV_NATIVE
#undef GN
#undef FIXN
#undef FIXS
#define GN 70
#elif !defined(HV_T2)
#define GN 3000
#elif !defined(GN)
#define GN 9
#endif
extern int gK, gJ, gR[GN + 1], gV0, gV1, *gIn;
#define BIT(h, k) ((((unsigned)(h)[(k) / 32]) >> ((k) % 32)) & 1u)
#define SAME(d, k) ((d)[(k) * ES] == (d)[((k) - 1) * ES] && (ES == 1 || (d)[(k) * ES + ES - 1] == (d)[((k) - 1) * ES + ES - 1]))
/* definition of the rank of value i: the number of values before it that begin a new run */
#define GRANK(r, i, new) __CPROVER_assume((i) < 1 || ((r)[i] == (r)[(i) - 1] + ((new) ? 1 : 0) && (r)[i] >= 0 && (r)[i] <= (i)))
#define EQ(o, a, d, b) ((o)[a] == (d)[b] && (ES == 1 || (o)[(a) + 1] == (d)[(b) + 1]))
