// MMA, public interface: convergence test on successive objectives.
#include "opt.h"
#include "Optimize/Solver/MMA.h"
static void conv(bool custom){ PR p=prob(2,1); MMA<double> o(2,1,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); double e=1e-5; if(custom){ e=vc_real("eps",0.015625,0.25); o.SetParameters(1e-5,0.1,0.5,0.5,0.7,1.2,e); } double q=vc_real("previous",-4,4),f=vc_real("current",-4,4); bool first=o.IsConvergence(f); vc_true(!first,"not converged before the first update"); DV xk=p.x; o.UpdateVariables(xk,q,p.df,p.g,p.dg); bool r=o.IsConvergence(f); vc_reach("conv"); for(int j=0;j<2;j++){ vc_le(p.xmin[j],xk[j],1e-9,"the update stays within the bounds (lower)"); vc_le(xk[j],p.xmax[j],1e-9,"the update stays within the bounds (upper)"); } double d=f-q,s=f+q; if(d<0) d=-d; if(s<0) s=-s; if(r) vc_le(d,e*s,1e-9,"converged only when the relative change is below the tolerance"); else vc_le(e*s,d,1e-9,"not converged only when the relative change reaches the tolerance"); }
//@ time=120 | every pair of successive objective values of either sign, default tolerance
VC_ENTRY convergence(){ conv(false); }
//@ time=120 | the same with a symbolic tolerance set through SetParameters
VC_ENTRY convergence_custom(){ conv(true); }
