/* Harness vocabulary shared by the verifier run (goto-cc/cbmc) and the native replay (gcc).
 * A harness is written once:
 *   IN(type,name)        one symbolic scalar input
 *   IN_ARR(type,name,n)  a symbolic array of constant capacity n
 *   REQ(c)               the contract's precondition, for the given inputs
 *   ENS("label", c)      the contract's postcondition
 * In cbmc mode inputs are nondeterministic; natively they are read from the replay file. */
#ifndef HV_H
#define HV_H
#include <stddef.h>
#ifdef HV_NATIVE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
long long hv_in(const char *id);
long long hv_in_range(const char *id,long long lo,long long hi,int ranged);
long long hv_in_char(const char *id,const char *alpha);
void hv_skip(const char *why);
void hv_fail(const char *label);
void hv_checked(void);
#define IN(T,n)        T n = (T)hv_in(#n)
#define IN_R(T,n,lo,hi) T n = (T)hv_in_range(#n,(lo),(hi),1); REQ((n)>=(lo)&&(n)<=(hi))
#define IN_F(n)        float n; { union { int i; float f; } hv_u; hv_u.i=(int)hv_in(#n); n=hv_u.f; }
#define IN_D(n)        double n; { union { long long i; double f; } hv_u; hv_u.i=hv_in(#n); n=hv_u.f; }
#define IN_SET(n)      (n) = (__typeof__(n))hv_in(#n)
#define IN_TEXT(n,cap,alpha) char n[cap]; for (int hv_i_##n=0; hv_i_##n<(int)(cap); hv_i_##n++) n[hv_i_##n]=(char)hv_in_char(#n,alpha)
#define IN_ARR(T,n,cap) T n[cap]; for (int hv_i_##n=0; hv_i_##n<(int)(cap); hv_i_##n++) n[hv_i_##n]=(T)hv_in(#n)
#define REQ(c)         do { if (!(c)) hv_skip(#c); } while (0)
#define ENS(l,c)       do { hv_checked(); if (!(c)) hv_fail(l); } while (0)
#define COVER(l)       do { } while (0)
#define HV_CONTRACT(...)
#define HV_OLD(x) (x)
#else
int nondet_int(void); long long nondet_longlong(void); char nondet_char(void); float nondet_float(void); double nondet_double(void); size_t nondet_size(void); unsigned nondet_uint(void);
/* every input passes through a variable hvin_<name>, so the driver can read it off the trace */
#define IN(T,n)        T n; { long long hvin_##n = nondet_longlong(); n = (T)hvin_##n; }
#define IN_R(T,n,lo,hi) T n; { long long hvin_##n = nondet_longlong(); __CPROVER_assume(hvin_##n>=(long long)(lo) && hvin_##n<=(long long)(hi)); n = (T)hvin_##n; }
#define IN_F(n)        float n; { long long hvin_##n = nondet_longlong(); union { int i; float f; } hv_u; hv_u.i=(int)hvin_##n; n=hv_u.f; }
#define IN_D(n)        double n; { long long hvin_##n = nondet_longlong(); union { long long i; double f; } hv_u; hv_u.i=hvin_##n; n=hv_u.f; }
#define IN_TEXT(n,cap,alpha) char n[cap]; for (int hv_i_##n=0; hv_i_##n<(int)(cap); hv_i_##n++) { long long hvin_##n = nondet_longlong(); n[hv_i_##n]=(char)hvin_##n; }
#define IN_SET(n)      do { long long hvin_##n = nondet_longlong(); (n) = (__typeof__(n))hvin_##n; } while (0)
#define IN_ARR(T,n,cap) T n[cap]; for (int hv_i_##n=0; hv_i_##n<(int)(cap); hv_i_##n++) { long long hvin_##n = nondet_longlong(); n[hv_i_##n]=(T)hvin_##n; }
#define REQ(c)         __CPROVER_assume(c)
#define ENS(l,c)       __CPROVER_assert((c), l)
/* reachability: must be reported FAILED by the verifier, else the run is vacuous */
#define COVER(l)       __CPROVER_assert(0, "HVCOVER " l)
#define HV_CONTRACT(...) __VA_ARGS__
#endif
#define implies(a,b) (!(a) || (b))
#endif
