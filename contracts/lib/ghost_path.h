/* ghost view of a pathname of six parts: gP[k] = position after the k-th slash */
extern int gP[7];
#define GL1(l, n, k) (!(k < (n)) || (l)[k] == gP[k + 1] - gP[k] - 1)
#define GLENS(l, n) (GL1(l, n, 0) && GL1(l, n, 1) && GL1(l, n, 2) && GL1(l, n, 3) && GL1(l, n, 4) && GL1(l, n, 5))
#define GSLASH(i) ((i) == gP[0] - 1 || (i) == gP[1] - 1 || (i) == gP[2] - 1 || (i) == gP[3] - 1 || (i) == gP[4] - 1 || (i) == gP[5] - 1 || (i) == gP[6] - 1)
/* instance, at index i, of the precondition: the slashes of the pathname are exactly those around its six parts */
#define GPATH_AT(p, i) __CPROVER_assume(((p)[i] == '/') == GSLASH(i))
extern int gJ, gM, gK, gNl, gAt0, gAt1, gDiff; extern char gChar0; extern const char *gNew;
#define GNEW (gM == gK && gJ < gNl)                       /* the ghost character belongs to the new part */
#define GSHIFT (gM > gK || (gM == gK && gJ >= gNl))        /* ... comes after it */
#define GHAS(p, at) ((p)[at] == gChar0)
#define GCOPY(p, i) (GNEW ? (i) <= gJ || GHAS(p, gAt1) : 1)
/* trimPositions: blanks before gA and after gE up to gN; gSrc0: character gI of the source text */
extern int gA, gE, gN, gI, gC0; extern char gSrc0, gBef;
#define GBLANK_AT(t, i) __CPROVER_assume(gE < 0 ? (t)[i] == ' ' : ((i) < gA || (i) > gE) ? (t)[i] == ' ' : ((i) == gA || (i) == gE) ? (t)[i] != ' ' : 1)
/* zpathnameClean: gG[i] kept characters and gS[i] kept slashes before index i; gT = index where copying stops */
extern int *gG, *gS; extern int gT;
#define GKEPT(t, i) ((t)[i] >= 32 && (t)[i] <= 126)
#define GCLEAN_AT(t, i) __CPROVER_assume(gG[i] >= 0 && gG[i] <= (i) && gS[i] >= 0 && gS[i] <= (i) && gG[(i) + 1] == gG[i] + GKEPT(t, i) && gS[(i) + 1] == gS[i] + ((t)[i] == '/') && (gS[(i) + 1] < 7) == ((i) + 1 < gT || ((i) + 1 == gT && gS[gT] < 7)) && ((i) >= gI || gG[(i) + 1] <= gG[gI]) && ((i) < gI || gG[i] >= gG[gI]) && ((i) <= gI || gG[i] >= gG[gI + 1]) && gG[(i) + 1] <= gG[gT])
