// MMA, white box: adaptation of the asymptotes to the history of the design (observed at the first Newton solve), and the
// two private helpers KKTNorm and solvels.
#include "opt.h"
#define private public
#include "Optimize/Solver/MMA.h"
#undef private
static std::function<void(MMA<double>*)>* g_at=nullptr;
namespace PANSFEM2{ template<> std::vector<double> MMA<double>::solvels(std::vector<std::vector<double> >,std::vector<double> b){ (*g_at)(this); return b; } }
static double mx(double a,double b){ if(a<b) return b; return a; } static double mn(double a,double b){ if(b<a) return b; return a; }
static void hist(int which){ int n=1,m=1; PR p=prob(n,m); double r0=p.xmax[0]-p.xmin[0],ad_=0.7,ai=1.2; MMA<double> o(n,m,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); if(which&1) p.x[0]=vc_real("x",0.1875,1.0625); double x1=which&2?vc_real("x_prev",0.1875,1.0625):0.625,x2=which&4?vc_real("x_prev2",0.1875,1.0625):0.375,L0=x1-(which&8?vc_real("low",0.0078125,12):0.25),U0=x1+(which&8?vc_real("upp",0.0078125,12):0.375); if(which&16){ ad_=vc_real("asydecr",0.25,0.9375); ai=vc_real("asyincr",1,2); o.SetParameters(1e-5,0.1,0.5,0.5,ad_,ai,1e-5); }
    o.k=2; o.xkm1[0]=x1; o.xkm2[0]=x2; o.L[0]=L0; o.U[0]=U0;
    std::function<void(MMA<double>*)> at=[&](MMA<double>*s){ vc_reach("asymptotes"); double x=p.x[0],t=(x-x1)*(x1-x2),c=1.0; if(t<0) c=ad_; else if(t>0) c=ai; double l=mn(mx(x-10*r0,x-c*(x1-L0)),x-0.01*r0),u=mn(mx(x+0.01*r0,x+c*(U0-x1)),x+10*r0); vc_eq(s->L[0],l,1e-7,"lower asymptote contracts on oscillation, expands on steady progress"); vc_eq(s->U[0],u,1e-7,"upper asymptote contracts on oscillation, expands on steady progress"); vc_le(s->L[0]+0.01*r0,x,1e-9,"design above the lower asymptote"); vc_le(x+0.01*r0,s->U[0],1e-9,"design below the upper asymptote"); vc_assume(0); };
    g_at=&at; DV xk=p.x; o.UpdateVariables(xk,1.0,p.df,p.g,p.dg); }
//@ time=200 | symbolic history x(k-1), x(k-2)
VC_ENTRY hist_x(){ hist(6); }
//@ time=200 | symbolic design and x(k-1)
VC_ENTRY hist_x2(){ hist(3); }
//@ time=200 | symbolic previous asymptotes and x(k-2)
VC_ENTRY hist_asym(){ hist(12); }
//@ time=200 | symbolic factors and x(k-2)
VC_ENTRY hist_par(){ hist(20); }
