extern long long gW, *gCtl; extern int gDisk, gOldB, *gSrc;
#define GV(dst, off) ((dst)[off])
