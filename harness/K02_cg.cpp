// Conjugate-gradient family on symmetric positive definite systems.
#include "krylov.h"
typedef std::vector<double> V;
static V run(int s,CSR<double>&A,const V&b,int it,double eps){ if(s==0) return CG(A,b,it,eps); if(s==1) return ScalingCG(A,b,it,eps); if(s==2){ CSR<double> M=ILU0(A); return ILU0CG(A,M,b,it,eps); } return SORCG(A,b,it,eps,1.0,s==4?30:1,1e-30); }
static const char*NM[5]={"CG","ScalingCG","ILU0CG","SORCG","SORCG"};
// (1) a returned solution claimed converged satisfies the residual tolerance: eps symbolic
//@ time=200 jobs=2 | three fixed SPD systems of size 4, b of any magnitude s in [1e-9,1e9], every tolerance eps in [1e-9,1], up to 8 iterations
VC_ENTRY converged(){
    int s=vc_choose("solver",0,2),w=vc_choose("w",0,2); DM a=spd(4,w); double sc=vc_real("scale",1e-9,1e9); DV b{1*sc,-2*sc,0.5*sc,3*sc}; double eps=vc_real("eps",1e-9,1); CSR<double> A=tocsr(a); V x=run(s,A,b,8,eps);
    DV r=resid(a,x,b); vc_reach("converged"); DV b1{1,-2,0.5,3}; double bn=nrm(b1); for(auto&v:r) v/=sc; for(double v:r){ vc_le(v,eps*bn,1e-6,std::string(NM[s])+" residual<=eps|b|"); vc_le(-v,eps*bn,1e-6,std::string(NM[s])+" residual>=-eps|b|"); }
}
// (2) finite termination: n exact steps solve the system for every SPD matrix and right-hand side
static void exact(int s,const DM&a,const DV&b,int it){ CSR<double> A=tocsr(a); V x=run(s,A,b,it,0.0); DV r=resid(a,x,b); vc_reach("exact"); vc_true(x.size()==b.size(),"size"); for(size_t i=0;i<r.size();i++) vc_eq(r[i],0,1e-6,std::string(NM[s])+" solves in n steps"); }
//@ time=300 jobs=2 | n=2: every SPD matrix [[p,q],[q,r]] with p,r in [1,3], |q|<=0.9, every b in [0.5,2]x[-2,-0.5]; 2 steps
VC_ENTRY exact2(){ int s=vc_choose("solver",0,1); double p=vc_real("p",1,3),q=vc_real("q",-0.9,0.9),r=vc_real("r",1,3); DV b{vc_real("b0",0.5,2),vc_real("b1",-2,-0.5)}; exact(s,{{p,q},{q,r}},b,2); }
//@ time=300 jobs=3 | n=3, second-difference matrix, b on a line b=(t,-1,2), t in [0.5,2]; 3 steps
VC_ENTRY exact3(){ int s=vc_choose("solver",0,2); DM a=spd(3,0); if(s==1){ a[0][0]=4; a[2][2]=1; } DV b{vc_real("t",0.5,2),-1.0,2.0}; exact(s,a,b,s==2?1:3); }
//@ time=100 | n=1: any positive entry, any b != 0; 1 step
VC_ENTRY exact1(){ int s=vc_choose("solver",0,3); double p=vc_real("p",0.1,10),b=vc_real("b",0.1,10); exact(s,{{p}},{b},1); }
// (3) energy-norm minimisation on the first step, all symbolic (preconditioned steepest descent)
//@ time=200 jobs=2 | n=2 all symbolic: one step of each solver is the (preconditioned) steepest descent step
VC_ENTRY onestep(){
    int s=vc_choose("solver",0,3); double p=vc_real("p",1,3),q=vc_real("q",-0.9,0.9),r=vc_real("r",1,3); DM a{{p,q},{q,r}}; DV b{vc_real("b0",0.5,2),vc_real("b1",-2,-0.5)}; CSR<double> A=tocsr(a); V x=run(s,A,b,1,0.0); vc_reach("onestep");
    // orthogonality of the new residual to the search direction characterises the step along d
    DV rr=resid(a,x,b); vc_eq(dot(rr,x),0,1e-6,std::string(NM[s])+" residual orthogonal to the step");
}
// (4) zero right-hand side has the zero solution
//@ time=100 | zero right-hand side, n=2,3
VC_ENTRY zero_rhs(){ int s=vc_choose("solver",0,2),n=vc_choose("n",2,3); DM a=spd(n,0); CSR<double> A=tocsr(a); V x=run(s,A,DV(n,0.0),5,1e-8); vc_reach("zero"); for(double v:x) vc_eq(v,0,TOL,std::string(NM[s])+" zero rhs"); }
// (5) larger systems and every magnitude of the matrix
//@ time=300 jobs=4 | SPD systems of size 5..8 (three families, stored sparse), matrix scaled by 2^-30, 1 or 2^30, every tolerance in [1e-9,1], up to 4n iterations: residual within the tolerance
VC_ENTRY larger(){ int s=vc_choose("solver",0,2),n=vc_choose("n",5,8),w=vc_choose("w",0,2); int m=vc_choose("mag",-1,1); double eps=vc_real("eps",1e-9,1),sc=m<0?0x1p-30:m>0?0x1p30:1.0; DM a=spd(n,w); DV b(n); for(int i=0;i<n;i++) b[i]=(i%3==1?-1.0:1.0)*(1+0.25*i); CSR<double> A(n,n); for(int i=0;i<n;i++) for(int j=n-1;j>=0;j--) if(a[i][j]!=0) A.set(i,j,a[i][j]*sc); V x=run(s,A,b,4*n,eps); for(auto&v:x) v*=sc; DV r=resid(a,x,b); vc_reach("larger"); double bn=nrm(b); for(double v:r){ vc_le(v,eps*bn,1e-8,std::string(NM[s])+" residual<=eps|b|"); vc_le(-v,eps*bn,1e-8,std::string(NM[s])+" residual>=-eps|b|"); } }
//@ time=200 jobs=2 | right-hand sides that an intermediate step solves exactly: diagonal systems with one or two distinct entries, any nonzero b; tolerance 1e-6, limit 20: finite and exact
VC_ENTRY early(){ int s=vc_choose("solver",0,3),two=vc_choose("two",0,1),n=3; double p=vc_real("p",0.25,4); DM a(n,DV(n,0.0)); for(int i=0;i<n;i++) a[i][i]= two&&i==1? 2*p:p; DV b=two? DV{1.0,vc_real("b",0.5,2),0.0}:symv("b",n,0.5,2); CSR<double> A(n,n); for(int i=0;i<n;i++) A.set(i,i,a[i][i]); V x=run(s,A,b,20,1e-6); vc_reach("early"); for(int i=0;i<n;i++) vc_eq(a[i][i]*x[i],b[i],1e-5,std::string(NM[s])+" exact after few steps"); }
//@ time=400 jobs=4 | many iterations: three sparse SPD systems of 25 and 36 unknowns (grids and a chain with strongly varying coefficients), CG / ScalingCG / ILU0CG / SORCG (30 sweeps), every tolerance in [1e-9,1], up to 4n iterations: residual within the tolerance
VC_ENTRY many_iterations(){ int s=vc_choose("solver",0,3),w=vc_choose("w",0,2),n=vc_choose("n",5,6); n*=n; if(s==3) s=4; double eps=vc_real("eps",1e-9,1); DM a=gridm(n,w,0); DV b(n); for(int i=0;i<n;i++) b[i]=(i%3==1?-1.0:1.0)*(1+0.25*(i%7)); CSR<double> A(n,n); for(int i=0;i<n;i++) for(int j=n-1;j>=0;j--) if(a[i][j]!=0) A.set(i,j,a[i][j]); V x=run(s,A,b,4*n,eps); DV r=resid(a,x,b); vc_reach("many"); double bn=nrm(b),rn=nrm(r); vc_le(rn,eps*bn,1e-8,std::string(NM[s])+" residual<=eps|b|"); }
