// CONLIN, white box: subproblem, Newton direction and step, continuation logic.
#include "opt.h"
#define SOLVER CONLIN
#define SOLVER_H "Optimize/Solver/CONLIN.h"
#include "optw.h"
static void sub(int n,int m,int,int which){ PR p=prob(n,m); double r0=p.xmax[0]-p.xmin[0]; SO o(n,m,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); double mv=0.5;
    if(which&1) p.x[0]=vc_real("x",0.1875,1.0625); if(which&2) p.df[0]=vc_real("df",-2,2); if(which&4) for(int i=0;i<m;i++) p.dg[i][0]=vc_real(vc_nm("dg",i),-2,2); if(which&8) p.g[0]=vc_real("g",-2,2); if(which&32){ mv=vc_real("move",0.125,1); o.SetParameters(mv,1e-5); }
    HOOK h=[&](SO*s,const WK&w,const SUB&u,const void*,std::function<void(const WK&)>)->double{ if(!initial(w,u)) stop(); approx(s,p,u); double x=p.x[0]; for(int i=-1;i<m;i++){ double pp=i<0?u.p0[0]:u.p[i][0],qq=i<0?u.q0[0]:u.q[i][0]; vc_eq(pp*qq,0,1e-7,"each variable enters either linearly or reciprocally"); }
        double al=mx(p.xmin[0],x-mv*r0),be=mn(p.xmax[0],x+mv*r0); vc_eq(u.al[0],al,1e-7,"lower move limit"); vc_eq(u.be[0],be,1e-7,"upper move limit"); for(int j=0;j<n;j++){ vc_le(p.xmin[j],u.al[j],1e-9,"move limits inside the bounds"); vc_le(u.be[j],p.xmax[j],1e-9,"move limits inside the bounds"); vc_le(u.al[j],p.x[j],1e-9,"current design between the move limits"); vc_le(p.x[j],u.be[j],1e-9,"current design between the move limits"); }
        stop(); return 0; };
    g_hook=&h; DV xk=p.x; o.UpdateVariables(xk,1.0,p.df,p.g,p.dg); }
static void subl(){ PR p=prob(6,4); SO o(6,4,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); p.g[3]=vc_real("g",-1e6,1e6); HOOK h=[&](SO*s,const WK&w,const SUB&u,const void*,std::function<void(const WK&)>)->double{ if(!initial(w,u)) stop(); approx(s,p,u); stop(); return 0; }; g_hook=&h; DV xk=p.x; o.UpdateVariables(xk,1.0,p.df,p.g,p.dg); }
//@ time=200 | n=2 m=1: symbolic design variable
VC_ENTRY sub_x(){ sub(2,1,0,1); }
//@ time=200 | n=2 m=1: symbolic gradients and constraint value
VC_ENTRY sub_grad(){ sub(2,1,1,14); }
//@ time=200 | n=1 m=2: symbolic objective gradient
VC_ENTRY sub_grad12(){ sub(1,2,0,2); }
//@ time=200 | n=1 m=2: symbolic constraint gradients
VC_ENTRY sub_dgrad12(){ sub(1,2,0,4); }
//@ time=200 | symbolic move parameter
VC_ENTRY sub_move(){ sub(2,1,1,32); }
//@ time=200 | Newton direction at an arbitrary iterate, n=2 m=1: symbolic gsi (x fixed between the limits)
VC_ENTRY newton21_a(){ newton(2,1,2); }
//@ time=200 | n=2 m=1: symbolic lambda, ita
VC_ENTRY newton21_b(){ newton(2,1,4+16); }
//@ time=200 | n=2 m=1: symbolic y, mu
VC_ENTRY newton21_c(){ newton(2,1,8+32); }
//@ time=200 | n=2 m=1: symbolic s
VC_ENTRY newton21_d(){ newton(2,1,64); }
//@ time=200 | n=2 m=2 (the n <= m branch): symbolic gsi, y
VC_ENTRY newton22_a(){ newton(2,2,2+8); }
//@ time=200 | n=2 m=2: symbolic lambda
VC_ENTRY newton22_b(){ newton(2,2,16); }
//@ time=200 | n=3 m=2: symbolic lambda
VC_ENTRY newton32(){ newton(3,2,16); }
//@ time=200 | n=3 m=2: symbolic ita, s
VC_ENTRY newton32_b(){ newton(3,2,4+64); }
//@ time=200 | n=1 m=2: symbolic s, mu
VC_ENTRY newton12(){ newton(1,2,32+64); }
//@ time=200 | line search and barrier continuation for every outcome of the first 12 residual evaluations
VC_ENTRY logic21(){ logic(2,1,12); }
//@ time=200 | step length with one component over three decades: symbolic gsi, n=2 m=1
VC_ENTRY wide_gsi(){ newton(2,1,1001); }
//@ time=200 | step length with one component over three decades: symbolic ita, n=2 m=1
VC_ENTRY wide_ita(){ newton(2,1,1002); }
//@ time=200 | step length with one component over three decades: symbolic y, n=2 m=1
VC_ENTRY wide_y(){ newton(2,1,1003); }
//@ time=200 | step length with one component over three decades: symbolic lam, n=2 m=1
VC_ENTRY wide_lam(){ newton(2,1,1004); }
//@ time=200 | step length with one component over three decades: symbolic mu, n=2 m=1
VC_ENTRY wide_mu(){ newton(2,1,1005); }
//@ time=200 | step length with one component over three decades: symbolic s, n=2 m=1
VC_ENTRY wide_s(){ newton(2,1,1006); }
//@ time=200 | step length, mu and s over three decades each, n=1 m=1
VC_ENTRY wide_mu_s(){ newton(1,1,1007); }
//@ time=200 | step length, mu and s over three decades each, n=2 m=1
VC_ENTRY wide_mu_s2(){ newton(2,1,1007); }
//@ time=200 | a line search that needs 12 or 40 halvings
VC_ENTRY logic_search(){ logic(2,1,0,vc_choose("many",0,1)?40:12,0); }
//@ time=200 | a barrier stage that needs 75 Newton steps
VC_ENTRY logic_stall(){ logic(2,1,0,0,75); }
//@ time=200 | n=6 m=4: symbolic value of the last constraint, concrete gradients
VC_ENTRY sub_large(){ subl(); }
//@ time=200 | Newton direction, n=6 m=4: symbolic lambda
VC_ENTRY newton64(){ newton(6,4,16); }
//@ time=200 | Newton direction, n=4 m=6: symbolic ita
VC_ENTRY newton46(){ newton(4,6,4); }
