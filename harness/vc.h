// Harness interface. Under the symbolic executor (VC_SYM) these are intercepted; under VC_REPLAY they read
// concrete inputs from the file named by $VC_INPUTS and check the same obligations in IEEE doubles.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <map>
#include <vector>
#define VC_ENTRY extern "C" void
#ifdef VC_REPLAY
#include <fstream>
#include <sstream>
inline std::map<std::string,double>& vc_inputs(){ static std::map<std::string,double> m; static bool done=false; if(!done){ done=true; std::ifstream f(getenv("VC_INPUTS")); std::string l; while(std::getline(f,l)){ size_t p=l.rfind(' '); if(p!=std::string::npos) m[l.substr(0,p)]=atof(l.c_str()+p+1); } } return m; }
inline int& vc_fails(){ static int n=0; return n; }
inline double vc_in(const char*n,double lo){ auto&m=vc_inputs(); auto it=m.find(n); return it==m.end()?lo:it->second; }
inline void vc_bad(const char*label,double a,double b){ vc_fails()++; fprintf(stderr,"REPLAY-VIOLATION label=%s got=%.17g expected=%.17g\n",label,a,b); }
// VC_PERTURB=seed: concretise an abstract counterexample (transcendental functions are uninterpreted for the solver): some of the
// model's reals are re-drawn from their range; a violation then has to be large (relative 1e-3) to count. The drawn values go to VC_DRAWN.
inline unsigned long long& vc_rng(){ static unsigned long long s=getenv("VC_PERTURB")?strtoull(getenv("VC_PERTURB"),0,10)*2654435761ull+88172645463325252ull:0; return s; }
inline double vc_u(){ auto&s=vc_rng(); s^=s<<13; s^=s>>7; s^=s<<17; return (s>>11)/9007199254740992.0; }
inline bool vc_pert(){ static bool b=getenv("VC_PERTURB")!=0; return b; }
inline double vc_real(const char*n,double lo,double hi){ double v=vc_in(n,(lo+hi)/2); if(!vc_pert()) return v;
    double r=vc_u(); if(r>0.5){ double w=vc_u(); if(r>0.75) v=lo+w*(hi-lo); else if(lo>0) v=lo*std::exp(w*std::log(hi/lo)); else { double c=v*(0.5+w); v=c<lo?lo:c>hi?hi:c; } }
    if(const char*o=getenv("VC_DRAWN")){ FILE*f=fopen(o,"a"); if(f){ fprintf(f,"%s %.17g\n",n,v); fclose(f); } } vc_inputs()[n]=v; return v; }
inline int vc_int(const char*n,int lo,int hi){ return (int)std::lround(vc_in(n,lo)); }
inline int vc_choose(const char*n,int lo,int hi){ return (int)std::lround(vc_in(n,lo)); }
inline int vc_concrete(int x){ return x; }
inline void vc_quit(){ fflush(0); _Exit(vc_fails()?1:7); }
inline void vc_assume(int c){ if(!c) vc_quit(); }
inline void vc_assume_le(double a,double b){ if(!(a<=b+1e-9*(1+std::fabs(a)+std::fabs(b)))) vc_quit(); }
inline void vc_assume_lt(double a,double b){ if(!(a<b+1e-9*(1+std::fabs(a)+std::fabs(b)))) vc_quit(); }
inline void vc_eq(double a,double b,double tol,const char*l){ if(!(std::fabs(a-b)<=0.5*tol)&&!(vc_pert()&&!(std::fabs(a-b)>1e-3*(std::fabs(a)+std::fabs(b))))) vc_bad(l,a,b); }
inline void vc_le(double a,double b,double slack,const char*l){ if(!(a<=b+0.5*slack)&&!(vc_pert()&&!(a-b>1e-3*(std::fabs(a)+std::fabs(b))))) vc_bad(l,a,b); }
inline void vc_check(int c,const char*l){ if(!c&&!vc_pert()) vc_bad(l,c,1); }
#ifndef VC_NO_LIVE
#include <new>
inline long& vc_live_cnt(){ static long n=0; return n; }
inline long vc_live(){ return vc_live_cnt(); }
#if !defined(__SANITIZE_ADDRESS__)
void* operator new(size_t n){ vc_live_cnt()++; void*p=malloc(n?n:1); return p; }
void* operator new[](size_t n){ vc_live_cnt()++; void*p=malloc(n?n:1); return p; }
void operator delete(void*p) noexcept { if(p) vc_live_cnt()--; free(p); }
void operator delete[](void*p) noexcept { if(p) vc_live_cnt()--; free(p); }
void operator delete(void*p,size_t) noexcept { if(p) vc_live_cnt()--; free(p); }
void operator delete[](void*p,size_t) noexcept { if(p) vc_live_cnt()--; free(p); }
#endif
#endif
inline void vc_reach(const char*){} inline void vc_strict_domain(int){} inline int vc_symbolic(){ return 0; } inline int vc_is_concrete(double){ return 1; } inline void vc_note(const char*n,double x){ fprintf(stderr,"NOTE %s = %.17g\n",n,x); } inline void vc_steplimit(long){}
#else
extern "C" {
double vc_real(const char*name,double lo,double hi);           // symbolic real input in [lo,hi]
int vc_int(const char*name,int lo,int hi);                     // symbolic integer input
int vc_choose(const char*name,int lo,int hi);                  // integer input, case-split by the solver
int vc_concrete(int x);                                        // case-split a symbolic integer
void vc_assume(int c); void vc_assume_le(double a,double b); void vc_assume_lt(double a,double b);
void vc_eq(double a,double b,double tol,const char*label);     // obligation |a-b| <= tol
void vc_le(double a,double b,double slack,const char*label);   // obligation a <= b + slack
void vc_check(int c,const char*label);                         // obligation c
long vc_live(void); void vc_reach(const char*label); void vc_strict_domain(int on); int vc_symbolic(void); int vc_is_concrete(double); void vc_note(const char*,double); void vc_steplimit(long);
}
#endif
inline std::string vc_nm(const char*b,int i){ return std::string(b)+std::to_string(i); }
inline std::string vc_nm(const char*b,int i,int j){ return std::string(b)+std::to_string(i)+"_"+std::to_string(j); }
inline double vc_real(const std::string&n,double lo,double hi){ return vc_real(n.c_str(),lo,hi); }
inline int vc_int(const std::string&n,int lo,int hi){ return vc_int(n.c_str(),lo,hi); }
inline int vc_choose(const std::string&n,int lo,int hi){ return vc_choose(n.c_str(),lo,hi); }
inline void vc_eq(double a,double b,double tol,const std::string&l){ vc_eq(a,b,tol,l.c_str()); }
inline void vc_le(double a,double b,double s,const std::string&l){ vc_le(a,b,s,l.c_str()); }
inline void vc_true(bool c,const std::string&l){ vc_check((int)c,l.c_str()); }
inline void vc_true(bool c,const char*l){ vc_check((int)c,l); }
