// Optimality-criteria update: move limits, unit box, common multiplier by bisection on the constraint, convergence test.
#include "common.h"
#include <iostream>
#include "Optimize/Solver/OC.h"
// variable 0 is a probe (x=1, df=-1, dg=1): its update reveals the multiplier that was used, lambda = x0'^-2
static void oc(int n,double eps,bool box){
    double m=vc_real("move",0.125,0.75); DV x{1.0},df{-1.0},dg{1.0}; for(int i=1;i<n;i++){ x.push_back(vc_real(vc_nm("x",i),0.001,1)); df.push_back(-vc_real(vc_nm("df",i),0.25,2)); dg.push_back(vc_real(vc_nm("dg",i),0.5,2)); } DV lo(n,0.0),hi(n,1.0); if(box) for(int i=1;i<n;i++){ lo[i]=vc_real(vc_nm("xmin",i),0.0,0.5); hi[i]=vc_real(vc_nm("xmax",i),0.75,1); vc_assume_le(lo[i],x[i]); vc_assume_le(x[i],hi[i]); }
    double l0=1,l1=1.21,c0=l0,c1=l1; OC<double> o(n,0.5,l0,l1,eps,m,lo,hi); DV xk=x,last; int calls=0; bool ok=true;
    o.UpdateVariables(xk,3.0,df,0.5,dg,[&](DV y)->double{ calls++; last=y; double lam=1/(y[0]*y[0]); if(!(lam>c0-1e-9&&lam<c1+1e-9)) ok=false; int pos=vc_choose(vc_nm("violated",calls),0,1); double mag=vc_real(vc_nm("g",calls),1e-9,1000); if(pos) c0=lam; else c1=lam; return pos?mag:-mag; });
    vc_reach("oc"); vc_true(calls>0,"the constraint is evaluated"); vc_true(ok,"every trial multiplier lies in the current bracket"); vc_true(c1-c0<=eps*(c1+c0)+1e-9,"the bracket of the multiplier is narrowed to the requested width"); if(!calls) return; vc_true((int)xk.size()==n,"number of variables"); if((int)xk.size()!=n) return;
    double lam=1/(xk[0]*xk[0]); vc_true(std::fabs(lam-c0)<1e-9||std::fabs(lam-c1)<1e-9||(lam>c0&&lam<c1),"the result uses a multiplier of the final bracket");
    for(int i=0;i<n;i++) vc_eq(xk[i],last[i],1e-9,"the result is the last trial design");
    for(int i=1;i<n;i++){ std::string s="("+std::to_string(i)+")"; if(box){ vc_le(lo[i],xk[i],1e-7,"the update respects the lower bound xmin"+s); vc_le(xk[i],hi[i],1e-7,"the update respects the upper bound xmax"+s); }
        vc_le(0.0,xk[i],1e-7,"the update stays in the unit box (lower)"+s); vc_le(xk[i],1.0,1e-7,"the update stays in the unit box (upper)"+s); vc_le((1-m)*x[i],xk[i],1e-7,"the update respects the move limit (down)"+s); vc_le(xk[i],(1+m)*x[i],1e-7,"the update respects the move limit (up)"+s);
        if(!box){ double a=(1-m)*x[i],b=(1+m)*x[i]; if(b>1) b=1; double q=-df[i]*x[i]*x[i],r=dg[i]*lam; // unconstrained update u with r u^2 = q
            double u2=q/r; if(u2<a*a) vc_eq(xk[i],a,1e-6,"lower move limit applied"+s); else if(u2>b*b) vc_eq(xk[i],b,1e-6,"upper limit applied"+s); else vc_eq(xk[i]*xk[i],u2,1e-6,"optimality criterion with the common multiplier"+s); } } }
//@ time=200 | 1 symbolic variable + probe, symbolic move limit, every outcome of 2-3 constraint evaluations
VC_ENTRY oc_update(){ oc(2,0.02,false); }
//@ time=300 | 2 symbolic variables + probe, symbolic move limit, every outcome of the constraint evaluations
VC_ENTRY oc_update2(){ oc(3,0.04,false); }
//@ time=200 | symbolic xmin/xmax inside the unit box (recorded finding: they are ignored)
VC_ENTRY oc_box(){ oc(2,0.04,true); }
//@ time=100 | other exponents: iota = 1 (x' = x * ratio)
VC_ENTRY oc_iota1(){ double x=vc_real("x",0.125,0.5),df=-vc_real("df",0.25,2),dg=vc_real("dg",0.5,2); OC<double> o(1,1.0,1.0,2.0,0.3,0.25,DV(1,0.0),DV(1,1.0)); DV xk{x}; int calls=0; double lam=1.5; o.UpdateVariables(xk,1.0,DV{df},0.0,DV{dg},[&](DV y)->double{ calls++; return -1.0; }); vc_reach("iota"); vc_true(calls==1,"one bisection step closes the bracket"); double u=x*(-df)/(dg*lam); if(u<0.75*x) u=0.75*x; else if(u>1.25*x) u=1.25*x; vc_eq(xk[0],u,1e-6,"optimality criterion with exponent one"); }
//@ time=100 | convergence test: every pair of successive objective values of either sign
VC_ENTRY oc_convergence(){ double p=vc_real("previous",-1000,1000),f=vc_real("current",-1000,1000); OC<double> o(1,0.5,1.0,2.0,0.3,0.25,DV(1,0.0),DV(1,1.0)); bool first=o.IsConvergence(f); vc_true(!first,"not converged before the first update"); DV xk{0.5}; o.UpdateVariables(xk,p,DV{-1.0},0.0,DV{1.0},[&](DV y)->double{ return -1.0; }); bool r=o.IsConvergence(f); vc_reach("conv"); double d=f-p,s=f+p; if(d<0) d=-d; if(s<0) s=-s; if(r) vc_le(d,1e-5*s,1e-9,"converged only when the relative change is below the tolerance"); else vc_le(1e-5*s,d,1e-9,"not converged only when the relative change reaches the tolerance"); }
// the multiplier found by the bisection for a constraint that is violated exactly while the multiplier is below `target`
static double bisect(double l0,double l1,double eps,double target,int&n){ double l=0; n=0; while((l1-l0)/(l1+l0)>eps){ l=0.5*(l1+l0); n++; if(l<target) l0=l; else l1=l; } return l; }
static void oc_formula(double x,double df,double dg,double lam,double m,double y,const char*s){ double a=(1-m)*x,b=(1+m)*x; if(b>1) b=1; double q=-df*x*x,r=dg*lam; if(q<r*a*a) vc_eq(y,a,1e-7,std::string("lower move limit applied ")+s); else if(q>r*b*b) vc_eq(y,b,1e-7,std::string("upper limit applied ")+s); else vc_eq(y*y*r,q,1e-6,std::string("optimality criterion with the common multiplier ")+s); }
//@ time=200 | full bisection from the customary bracket [0, 1e4] at relative width 1e-3 for three targets and three (variable, constraint sensitivity) pairs; objective sensitivity over 18 decades
VC_ENTRY oc_bracket(){ int t=vc_choose("target",0,2); double target=t==0?0.0371:t==1?12.5:4987.0; int want; double lam=bisect(0,1e4,1e-3,target,want); int c=vc_choose("x",0,2); double x=c==0?1e-6:c==1?0.3125:1.0,df=-vc_real("df",1e-12,1e6),dg=c==0?1e-3:c==1?0.75:300; OC<double> o(2,0.5,0.0,1e4,1e-3,0.2,DV(2,0.0),DV(2,1.0)); int calls=0; double c0=0,c1=1e4; DV xk{x,0.5}; o.UpdateVariables(xk,1.0,DV{df,-1.0},0.0,DV{dg,1.0},[&](DV y)->double{ calls++; double l=0.5*(c0+c1); if(l<target){ c0=l; return 1.0; } c1=l; return -1.0; }); vc_reach("bracket"); vc_true(calls==want,"number of bisection steps"); if((int)xk.size()!=2){ vc_true(false,"number of variables"); return; } oc_formula(x,df,dg,lam,0.2,xk[0],"(0)"); oc_formula(0.5,-1.0,1.0,lam,0.2,xk[1],"(1)"); }
//@ time=200 | the same update after 1, 25 and 130 earlier updates of one optimiser object; and the convergence test compares with the latest value
VC_ENTRY oc_late(){ int t=vc_choose("updates",0,2),N=t==0?1:t==1?25:130; OC<double> o(1,0.5,1.0,2.0,0.3,0.25,DV(1,0.0),DV(1,1.0)); for(int i=0;i<N;i++){ DV y{0.25+0.5*((i*7)%13)/13.0}; o.UpdateVariables(y,100.0-i,DV{-0.5-(i%5)},0.0,DV{1.0+(i%3)},[&](DV){ return -1.0; }); } double x=vc_real("x",1e-3,1),df=-vc_real("df",1e-3,10),dg=vc_real("dg",0.1,10),p=vc_real("previous",1,1000),f=vc_real("current",1,1000); DV xk{x}; o.UpdateVariables(xk,p,DV{df},0.0,DV{dg},[&](DV){ return -1.0; }); vc_reach("late"); oc_formula(x,df,dg,1.5,0.25,xk[0],"(late)"); double d=f-p; if(d<0) d=-d; if(o.IsConvergence(f)) vc_le(d,1e-5*(f+p),1e-9,"converged only when the relative change is below the tolerance"); else vc_le(1e-5*(f+p),d,1e-9,"not converged only when the relative change reaches the tolerance"); }
