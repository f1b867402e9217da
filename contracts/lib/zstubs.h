/* Contracts assumed of logging and error reporting (C13 covers the error codes): logging changes nothing the caller sees; an error
 * code is negative and stays an error.  Included by units whose properties do not depend on them; off in native and tier 2 runs. */
#if !defined(HV_NATIVE) && !defined(HV_T2)
int zmessageLevel(long long *ifltab, int m, int l) { return nondet_int() & 1; }
void zmessage(long long *ifltab, const char *m) {}
void zmessage2(long long *ifltab, const char *m, const char *n) {}
void zmessageInt(long long *ifltab, const char *m, int v) {}
void zmessageLong(long long *ifltab, const char *m, long long v) {}
void zmessageDebug(long long *ifltab, int f, const char *a, const char *b) {}
void zmessageDebugInt(long long *ifltab, int f, const char *a, int v) {}
void zmessageDebugLong(long long *ifltab, int f, const char *a, long long v) {}
void zmessageZput(long long *ifltab, long long a, int n, int w, int b, int s, int f, const char *m) {}
void zmessageZget(long long *ifltab, long long a, int n, int w, int b, int s, int f, const char *m) {}
int zerrorProcessing(long long *ifltab, int f, int e, int s, long long a, int sev, const char *p, const char *m) { int r = nondet_int(); __CPROVER_assume(r <= -10); return r; }
int zerrorUpdate(long long *ifltab, int e, int f) { return e; }
int zisError(int s) { return s < -1; }
#endif
/* every key of the file tables has its own index, as zinit sets them up */
#define KEYS() do { int *hv_k = (int *)&zdssKeys; for (int i = 0; i < (int)(sizeof zdssKeys / sizeof(int)); i++) hv_k[i] = i; hv_k = (int *)&zdssFileKeys; for (int i = 0; i < (int)(sizeof zdssFileKeys / sizeof(int)); i++) hv_k[i] = i; } while (0)
