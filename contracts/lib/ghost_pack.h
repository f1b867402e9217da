extern int gT, gK, gG, gEnd; extern unsigned char gSrc0, gDst0; extern long long gL0, gL1; extern int gI0, gI1;
/* byte i of the source: gSrc0 is its byte gG, gT its first zero byte */
#define GSRC_AT(a, i) __CPROVER_assume(((i) != gG || (a)[i] == gSrc0) && ((i) > gT || ((a)[i] == 0) == ((i) == gT)))
