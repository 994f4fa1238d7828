// MMA, white box: asymptotes, subproblem, Newton direction and step, continuation logic.
#include "opt.h"
#define SOLVER MMA
#define SOLVER_H "Optimize/Solver/MMA.h"
#define CONVEX_MMA
#include "optw.h"
static void sub(int n,int m,int k,int which){ PR p=prob(n,m); double r0=p.xmax[0]-p.xmin[0]; SO o(n,m,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); double as=0.5,mv=0.5;
    if(which&1) p.x[0]=vc_real("x",0.1875,1.0625); if(which&2) p.df[0]=vc_real("df",-2,2); if(which&4) for(int i=0;i<m;i++) p.dg[i][0]=vc_real(vc_nm("dg",i),-2,2); if(which&8) p.g[0]=vc_real("g",-2,2); if(which&16) as=vc_real("asyinit",0.0625,1); if(which&32) mv=vc_real("move",0.125,1); if(which&48) o.SetParameters(1e-5,0.1,mv,as,0.7,1.2,1e-5);
    HOOK h=[&](SO*s,const WK&w,const SUB&u,const void*,std::function<void(const WK&)>)->double{ if(!initial(w,u)) stop(); approx(s,p,u);
        double x=p.x[0],l=mn(mx(x-10*r0,x-as*r0),x-0.01*r0),uu=mn(mx(x+0.01*r0,x+as*r0),x+10*r0); vc_eq(s->L[0],l,1e-7,"lower asymptote"); vc_eq(s->U[0],uu,1e-7,"upper asymptote");
        double al=mx(p.xmin[0],mx(l+0.1*(x-l),x-mv*r0)),be=mn(p.xmax[0],mn(uu-0.1*(uu-x),x+mv*r0)); vc_eq(u.al[0],al,1e-7,"lower move limit"); vc_eq(u.be[0],be,1e-7,"upper move limit"); for(int j=0;j<n;j++){ vc_le(p.xmin[j],u.al[j],1e-9,"move limits inside the bounds"); vc_le(u.be[j],p.xmax[j],1e-9,"move limits inside the bounds"); vc_le(u.al[j],p.x[j],1e-9,"current design between the move limits"); vc_le(p.x[j],u.be[j],1e-9,"current design between the move limits"); }
        stop(); return 0; };
    g_hook=&h; DV xk=p.x; o.UpdateVariables(xk,1.0,p.df,p.g,p.dg); }
static void subl(){ PR p=prob(6,4); SO o(6,4,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); p.g[3]=vc_real("g",-1e6,1e6); HOOK h=[&](SO*s,const WK&w,const SUB&u,const void*,std::function<void(const WK&)>)->double{ if(!initial(w,u)) stop(); approx(s,p,u); stop(); return 0; }; g_hook=&h; DV xk=p.x; o.UpdateVariables(xk,1.0,p.df,p.g,p.dg); }
//@ time=200 | first iterations, n=2 m=1: symbolic design variable
VC_ENTRY sub_x(){ sub(2,1,0,1); }
//@ time=200 | first iterations, n=2 m=1: symbolic gradients and constraint value
VC_ENTRY sub_grad(){ sub(2,1,1,14); }
//@ time=200 | n=1 m=2: symbolic objective gradient
VC_ENTRY sub_grad12(){ sub(1,2,0,2); }
//@ time=200 | n=1 m=2: symbolic constraint gradients
VC_ENTRY sub_dgrad12(){ sub(1,2,0,4); }
//@ time=200 | first iterations: symbolic move parameter
VC_ENTRY sub_move(){ sub(2,1,1,32); }
//@ time=200 | first iterations: symbolic initial asymptote distance
VC_ENTRY sub_init(){ sub(2,1,1,16); }
//@ time=200 | Newton direction at an arbitrary iterate, n=2 m=1: symbolic gsi (x fixed between the limits)
VC_ENTRY newton21_a(){ newton(2,1,2); }
//@ time=200 | n=2 m=1: symbolic lambda, ita
VC_ENTRY newton21_b(){ newton(2,1,4+16); }
//@ time=200 | n=2 m=1: symbolic y, mu
VC_ENTRY newton21_c(){ newton(2,1,8+32); }
//@ time=200 | n=2 m=1: symbolic s
VC_ENTRY newton21_d(){ newton(2,1,64); }
//@ time=200 | n=2 m=2 (the n <= m branch): symbolic gsi, y
VC_ENTRY newton22_a(){ newton(2,2,2+8); }
//@ time=200 | n=2 m=2: symbolic lambda
VC_ENTRY newton22_b(){ newton(2,2,16); }
//@ time=200 | n=3 m=2: symbolic lambda
VC_ENTRY newton32(){ newton(3,2,16); }
//@ time=200 | n=3 m=2: symbolic ita, s
VC_ENTRY newton32_b(){ newton(3,2,4+64); }
//@ time=200 | n=1 m=2: symbolic s, mu
VC_ENTRY newton12(){ newton(1,2,32+64); }
//@ time=200 | line search and barrier continuation for every outcome of the first 12 residual evaluations
VC_ENTRY logic21(){ logic(2,1,12); }
//@ time=200 | step length with one component over three decades: symbolic gsi, n=2 m=1
VC_ENTRY wide_gsi(){ newton(2,1,1001); }
//@ time=200 | step length with one component over three decades: symbolic ita, n=2 m=1
VC_ENTRY wide_ita(){ newton(2,1,1002); }
//@ time=200 | step length with one component over three decades: symbolic y, n=2 m=1
VC_ENTRY wide_y(){ newton(2,1,1003); }
//@ time=200 | step length with one component over three decades: symbolic lam, n=2 m=1
VC_ENTRY wide_lam(){ newton(2,1,1004); }
//@ time=200 | step length with one component over three decades: symbolic mu, n=2 m=1
VC_ENTRY wide_mu(){ newton(2,1,1005); }
//@ time=200 | step length with one component over three decades: symbolic s, n=2 m=1
VC_ENTRY wide_s(){ newton(2,1,1006); }
//@ time=200 | step length, mu and s over three decades each, n=2 m=1
VC_ENTRY wide_mu_s2(){ newton(2,1,1007); }
//@ time=200 | a line search that needs 12 or 40 halvings
VC_ENTRY logic_search(){ logic(2,1,0,vc_choose("many",0,1)?40:12,0); }
//@ time=200 | a barrier stage that needs 75 Newton steps
VC_ENTRY logic_stall(){ logic(2,1,0,0,75); }
// a whole history through the public interface: 3 variables with very different ranges, designs chosen by the caller
static double ha(double lo,double hi,double f){ return lo+(hi-lo)*f; }
static void history(int T,int which){ PR p=prob(3,1); p.xmin={0.125,-2,10}; p.xmax={1.125,2,10.03125}; static const double S[10][3]={{0.5,0.5,0.5},{0.625,0.5,0.375},{0.5,0.625,0.4375},{0.5625,0.75,0.5},{0.59375,0.8125,0.5625},{0.546875,0.8125,0.5},{0.5625,0.875,0.53125},{0.625,0.8125,0.5625},{0.6875,0.8125,0.625},{0.65625,0.84375,0.75}};
    SO o(3,1,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); DM X; for(int t=0;t<T;t++){ DV x; for(int j=0;j<3;j++){ double f=S[t][j]; if(t==T-1&&j==which) f=vc_real("x",0.0625,0.9375); x.push_back(ha(p.xmin[j],p.xmax[j],f)); } X.push_back(x); }
    DV L(3),U(3); for(int t=0;t<T;t++){ for(int j=0;j<3;j++){ double x=X[t][j],r=p.xmax[j]-p.xmin[j],l,u; if(t<2){ l=x-0.5*r; u=x+0.5*r; } else { double x1=X[t-1][j],x2=X[t-2][j],g=(x-x1)*(x1-x2),c=1; if(g<0) c=0.7; else if(g>0) c=1.2; l=x-c*(x1-L[j]); u=x+c*(U[j]-x1); } L[j]=mn(mx(x-10*r,l),x-0.01*r); U[j]=mn(mx(x+0.01*r,u),x+10*r); }
        bool last=t==T-1,fst=true; p.x=X[t]; HOOK h=[&](SO*s,const WK&w,const SUB&u,const void*,std::function<void(const WK&)>)->double{ if(!fst) return w.eps*0.25; if(!initial(w,u)) stop(); fst=false;
            for(int j=0;j<3;j++){ double r=p.xmax[j]-p.xmin[j],x=p.x[j]; std::string e=ix(j); vc_eq((s->L[j]-x)/r,(L[j]-x)/r,1e-7,"lower asymptote over the whole history"+e); vc_eq((s->U[j]-x)/r,(U[j]-x)/r,1e-7,"upper asymptote over the whole history"+e); if(!last) continue; double al=mx(p.xmin[j],mx(L[j]+0.1*(x-L[j]),x-0.5*r)),be=mn(p.xmax[j],mn(U[j]-0.1*(U[j]-x),x+0.5*r)); vc_eq((u.al[j]-x)/r,(al-x)/r,1e-7,"lower move limit"+e); vc_eq((u.be[j]-x)/r,(be-x)/r,1e-7,"upper move limit"+e); vc_eq(ad(s,j,u.p0[j],u.q0[j],x),p.df[j],1e-6,"gradient of the approximated objective at the current design"+e); vc_eq(ad(s,j,u.p[0][j],u.q[0][j],x),p.dg[0][j],1e-6,"gradient of the approximated constraint at the current design"+e); double a=s->U[j]-x,P=(p.df[j]>0?1.001:-0.001)*p.df[j]+1e-5/r; vc_eq(u.p0[j]/(a*a),P,1e-8,"convexity added to the approximation"+e); }
            if(last){ vc_reach("history"); double v=-u.b[0]; for(int j=0;j<3;j++) v+=av(s,j,u.p[0][j],u.q[0][j],p.x[j]); vc_eq(v,p.g[0],1e-6,"value of the approximated constraint at the current design"); stop(); } return 1.0; };
        g_hook=&h; DV xk=p.x; o.UpdateVariables(xk,1.0+t,p.df,p.g,p.dg); } }
//@ time=300 | histories of 2, 4, 7 and 10 designs of 3 variables with ranges 1, 4 and 1/32; the last value of variable 0 symbolic
VC_ENTRY history_a(){ int T=vc_choose("updates",0,3); history(T==0?2:T==1?4:T==2?7:10,0); }
//@ time=300 | the same with the last value of the narrow variable 2 symbolic
VC_ENTRY history_b(){ int T=vc_choose("updates",0,2); history(T==0?3:T==1?6:9,2); }
//@ time=200 | n=6 m=4: symbolic value of the last constraint, concrete gradients
VC_ENTRY sub_large(){ subl(); }
//@ time=200 | Newton direction, n=6 m=4: symbolic s
VC_ENTRY newton64(){ newton(6,4,64); }
//@ time=200 | Newton direction, n=4 m=6: symbolic ita
VC_ENTRY newton46(){ newton(4,6,4); }
