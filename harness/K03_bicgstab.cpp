// BiCGSTAB family on general nonsymmetric systems.
#include "krylov.h"
typedef std::vector<double> V;
static const char*NM[4]={"BiCGSTAB","BiCGSTAB2","ILU0BiCGSTAB","ScalingBiCGSTAB"};
static V run(int s,CSR<double>&A,V b,int it,double eps){ if(s==0) return BiCGSTAB(A,b,it,eps); if(s==1) return BiCGSTAB2(A,b,it,eps); if(s==2){ CSR<double> M=ILU0(A); return ILU0BiCGSTAB(A,M,b,it,eps); } return ScalingBiCGSTAB(A,b,it,eps); }
//@ time=300 jobs=4 | three fixed nonsymmetric systems of size 4, b of any magnitude in [1e-9,1e9], every tolerance eps in [1e-9,1], up to 12 iterations
VC_ENTRY converged(){
    int s=vc_choose("solver",0,3),w=vc_choose("w",0,2); DM a=nonsym(4,w); double sc=vc_real("scale",1e-9,1e9); DV b1{1,-2,0.5,3},b=b1; for(auto&x:b) x*=sc; double eps=vc_real("eps",1e-9,1); CSR<double> A=tocsr(a); V x=run(s,A,b,12,eps);
    DV r=resid(a,x,b); vc_reach("converged"); double bn=nrm(b1); for(auto&v:r) v/=sc; for(double v:r){ vc_le(v,eps*bn,1e-6,std::string(NM[s])+" residual<=eps|b|"); vc_le(-v,eps*bn,1e-6,std::string(NM[s])+" residual>=-eps|b|"); }
}
static void exact(int s,const DM&a,const DV&b,int it){ CSR<double> A=tocsr(a); if(it>1&&s!=2){ V x1=run(s,A,b,it-1,-1.0); vc_assume_lt(0.01,nrm(resid(a,x1,b))); } V x=run(s,A,b,it,1e-9); DV r=resid(a,x,b); vc_reach("exact"); for(size_t i=0;i<r.size();i++) vc_eq(r[i],0,1e-6,std::string(NM[s])+" solves in n steps"); }
//@ time=300 jobs=4 | n=2: three nonsymmetric matrices, every direction of b (b=(t,1), |t|<=3), inputs whose first step already leaves a residual below 0.01 excluded; 2 steps of each solver
VC_ENTRY exact2(){ int s=vc_choose("solver",0,3); int w=vc_choose("w",0,2); DM a=w==0?DM{{2,0.25},{-0.5,1.5}}:w==1?DM{{3,1},{2,1}}:DM{{1,-2},{0.5,4}}; DV b{vc_real("t",-3,3),1.0}; exact(s,a,b,2); }
//@ time=100 | zero right-hand side, n=2,3
VC_ENTRY zero_rhs(){ int s=vc_choose("solver",0,3),n=vc_choose("n",2,3); DM a=nonsym(n,0); CSR<double> A=tocsr(a); V x=run(s,A,DV(n,0.0),5,1e-8); vc_reach("zero"); for(double v:x) vc_eq(v,0,TOL,std::string(NM[s])+" zero rhs"); }
//@ time=100 | systems solved exactly by the first half step: multiples p of the identity, p in [0.5,2], any b; n=1..3
VC_ENTRY half_step(){ int s=vc_choose("solver",0,3),n=vc_choose("n",1,3); double p=vc_real("p",0.5,2); DM a(n,DV(n,0.0)); for(int i=0;i<n;i++) a[i][i]=p; DV b=symv("b",n,0.5,2); CSR<double> A=tocsr(a,true); V x=run(s,A,b,4,1e-8); vc_reach("half"); for(int i=0;i<n;i++) vc_eq(p*x[i],b[i],1e-6,std::string(NM[s])+" identity system"); }
//@ time=300 jobs=4 | nonsymmetric systems of size 5..8 (three families, stored sparse), matrix scaled by 2^-30, 1 or 2^30, every tolerance in [1e-9,1], up to 6n iterations: residual within the tolerance
VC_ENTRY larger(){ int s=vc_choose("solver",0,3),n=vc_choose("n",5,8),w=vc_choose("w",0,2); int m=vc_choose("mag",-1,1); double eps=vc_real("eps",1e-9,1),sc=m<0?0x1p-30:m>0?0x1p30:1.0; DM a=nonsym(n,w); DV b(n); for(int i=0;i<n;i++) b[i]=(i%3==1?-1.0:1.0)*(1+0.25*i); CSR<double> A(n,n); for(int i=0;i<n;i++) for(int j=n-1;j>=0;j--) if(a[i][j]!=0) A.set(i,j,a[i][j]*sc); V x=run(s,A,b,6*n,eps); for(auto&v:x) v*=sc; DV r=resid(a,x,b); vc_reach("larger"); double bn=nrm(b); for(double v:r){ vc_le(v,eps*bn,1e-8,std::string(NM[s])+" residual<=eps|b|"); vc_le(-v,eps*bn,1e-8,std::string(NM[s])+" residual>=-eps|b|"); } }
//@ time=400 jobs=4 | many iterations: three sparse nonsymmetric systems of 25 and 36 unknowns (grids and a chain with strongly varying coefficients, skew part), every solver, every tolerance in [1e-9,1], up to 6n iterations: residual within the tolerance
VC_ENTRY many_iterations(){ int s=vc_choose("solver",0,3),w=vc_choose("w",0,2),n=vc_choose("n",5,6); n*=n; double eps=vc_real("eps",1e-9,1); DM a=gridm(n,w,0.3); DV b(n); for(int i=0;i<n;i++) b[i]=(i%3==1?-1.0:1.0)*(1+0.25*(i%7)); CSR<double> A(n,n); for(int i=0;i<n;i++) for(int j=n-1;j>=0;j--) if(a[i][j]!=0) A.set(i,j,a[i][j]); V x=run(s,A,b,6*n,eps); DV r=resid(a,x,b); vc_reach("many"); double bn=nrm(b),rn=nrm(r); vc_le(rn,eps*bn,1e-7,std::string(NM[s])+" residual<=eps|b|"); }
