/* Runtime for native runs of a contract harness against the real compiled code.
 *   prog FILE                 replay: inputs are the "name value" lines of FILE
 *   prog --search SEED SECS F witness search after a failed obligation: random inputs, F receives the failing ones
 * exit 0 postconditions hold, 2 a postcondition fails, 3 precondition not met, 77 sanitizer report */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#define MAXV 200000
static char *ids[MAXV]; static long long vals[MAXV]; static char used[MAXV]; static int nv; static int nchecked;
static int searching; static jmp_buf jb; static unsigned long long rs;
typedef struct { char id[40]; long long v; } rec_t;
typedef struct { long n; rec_t r[8192]; } area_t;
static area_t *area; static const char *outfile; static int mode;
static unsigned long long rnd(void){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs*2685821657736338717ULL; }
static void dump(void){ FILE *f=fopen(outfile,"w"); if(!f) return; for(long i=0;i<area->n && i<8192;i++) fprintf(f,"%s %lld\n",area->r[i].id,area->r[i].v); fclose(f); }
static long long rec(const char *id,long long v){ if(area->n<8192){ strncpy(area->r[area->n].id,id,39); area->r[area->n].v=v; } area->n++; return v; }
static long long interesting(void){
	static const long long k[]={0,1,-1,2,3,7,12,15,23,24,28,29,30,31,59,60,61,100,365,366,400,900,1439,1440,1441,3599,3600,3601,86399,86400,86401,-86400,-1440,10080,43200,525600,693960,700000,32767,-32768,65535,2147483647LL,-2147483647LL,-2147483648LL};
	switch (mode ? rnd()%mode : rnd()%6){
	case 0: return (long long)(rnd()%9)-4;
	case 1: return k[rnd()%(sizeof k/sizeof *k)];
	case 2: return (long long)(rnd()%200)-20;
	case 3: return (int)rnd();
	case 4: return (long long)(rnd()%2000000)-500000;
	default: return (long long)(int)rnd() >> (rnd()%32);
	}
}
long long hv_in_range(const char *id,long long lo,long long hi,int ranged){
	if(!searching){ for (int i=0;i<nv;i++) if(!used[i] && !strcmp(ids[i],id)){ used[i]=1; return vals[i]; } return ranged && (lo>0||hi<0) ? lo : 0; }
	if(!ranged) return rec(id,interesting());
	unsigned long long w=(unsigned long long)(hi-lo)+1; long long v;
	switch(rnd()%8){ case 0: v=lo; break; case 1: v=hi; break;
	case 2: v=lo+(long long)(rnd()%(w<4?w:4)); break; case 3: v=hi-(long long)(rnd()%(w<4?w:4)); break;
	case 4: v=interesting(); if(v<lo||v>hi) v=lo+(long long)(w?rnd()%w:rnd()); break;
	default: v=lo+(long long)(w?rnd()%w:rnd()); }
	return rec(id,v);
}
long long hv_in(const char *id){ return hv_in_range(id,0,0,0); }
/* one character: from the alphabet most of the time when searching, any byte otherwise */
long long hv_in_char(const char *id,const char *alpha){
	if(!searching) return hv_in(id);
	if(rnd()%10) { size_t n=strlen(alpha); return rec(id,(char)(alpha[rnd()%n])); }
	return rec(id,(char)rnd());
}
void hv_skip(const char *why){ if(searching) longjmp(jb,1); printf("HV-SKIP precondition not met: %s\n",why); fflush(stdout); _Exit(3); }
void hv_fail(const char *l){ printf("HV-FAIL %s\n",l); fflush(stdout); if(searching) dump(); _Exit(2); }
void hv_checked(void){ nchecked++; }
void HV_MAIN(void);
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void onsig(int s){ dump(); _Exit(78); }
int main(int c,char**v){
	if(c>1 && strcmp(v[1],"--search")){ FILE*f=fopen(v[1],"r"); char b[256]; long long x; if(!f) return 9;
	  while(nv<MAXV && fscanf(f,"%255s %lld",b,&x)==2){ ids[nv]=strdup(b); vals[nv++]=x; } fclose(f); }
	else if(c>4){ long long n=0,ok=0; searching=1; rs=strtoull(v[2],0,10)*0x9E3779B97F4A7C15ULL+1; outfile=v[4];
	  int fd=open(v[4],O_RDWR|O_CREAT|O_TRUNC,0600); close(fd);
	  area=mmap(0,sizeof *area,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
	  if(__asan_set_death_callback) __asan_set_death_callback(dump);
	  signal(SIGABRT,onsig); signal(SIGFPE,onsig);
	  time_t end=time(0)+atoi(v[3]);
	  for(rnd(),rnd();;n++){ if(!(n&255) && time(0)>=end) break; area->n=0; mode=rnd()%3?0:1+(int)(rnd()%6); if(!setjmp(jb)){ HV_MAIN(); ok++; } }
	  printf("HV-SEARCH none: %lld tries, %lld met the precondition\n",n,ok); remove(v[4]); return 0; }
	HV_MAIN(); printf("HV-OK %d postconditions checked\n",nchecked); return 0; }
