// Lanczos processes (white box: the eigen-solver of the small matrix and the linear solver are replaced by stand-ins that
// record / solve exactly, so that the basis and the tridiagonal matrix are observable).
#include "sparse.h"
#include "LinearAlgebra/Solvers/Lanczos.h"
static DV gA,gB; static int gCalls,gInv; static DV gTheta,gPassed; static int gPert=-1,gCG; static DV gDelta;
template<> double BisectionMethod<double>(const std::vector<double>&a,const std::vector<double>&b,int mode){ gA=a; gB=b; gCalls++; return gTheta[mode]; }
template<> std::vector<double> InversePowerMethod<double>(const std::vector<double>&a,const std::vector<double>&b,double l){ std::vector<double> y(a.size(),0.0); gPassed.push_back(l); if(gInv<(int)y.size()) y[gInv]=1.0; gInv++; return y; }
static DM adj(const DM&a){ int n=a.size(); DM r(n,DV(n)); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ DM m; for(int p=0;p<n;p++) if(p!=j){ DV q; for(int c=0;c<n;c++) if(c!=i) q.push_back(a[p][c]); m.push_back(q); } r[i][j]=(((i+j)%2)?-1.0:1.0)*(n==1?1.0:det_leibniz(m)); } return r; }
static DV gauss(DM a,DV b){ int n=b.size(); for(int k=0;k<n;k++) for(int i=k+1;i<n;i++){ double f=a[i][k]/a[k][k]; for(int j=k;j<n;j++) a[i][j]-=f*a[k][j]; b[i]-=f*b[k]; } for(int i=n-1;i>=0;i--){ for(int j=i+1;j<n;j++) b[i]-=a[i][j]*b[j]; b[i]/=a[i][i]; } return b; }
template<> std::vector<double> ScalingCG<double>(CSR<double>&A,const std::vector<double>&b,int itr,double eps){ int n=b.size(); if(n>5){ DM a(n,DV(n)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) a[i][j]=A.get(i,j); gCG++; return gauss(a,b); } DM a(n,DV(n)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) a[i][j]=A.get(i,j); double d=det_leibniz(a); DM c=adj(a); std::vector<double> x(n,0.0); for(int i=0;i<n;i++){ for(int j=0;j<n;j++) x[i]+=c[i][j]*b[j]; x[i]/=d; } if(gCG==gPert) for(int i=0;i<n;i++) x[i]+=gDelta[i]; gCG++; return x; }
static double dot(const DV&a,const DV&b){ double s=0; for(size_t i=0;i<a.size();i++) s+=a[i]*b[i]; return s; }
static const char*NM[]={"Lanczos","RestartLanczos","ShiftedInvertLanczos","GeneralShiftedInvertLanczos","GeneralRestartShiftedInvertLanczos"};
static void go(int s,const DM&a,const DM&b,int m,double sigma,bool pert=false){
    int n=a.size(); gCalls=gInv=gCG=0; gPassed.clear(); gTheta.clear(); for(int k=0;k<m;k++) gTheta.push_back(vc_real(vc_nm("theta",k),0.5+k,1.25+k));
    CSR<double> A=tocsr(a),B=tocsr(b); std::vector<double> ev; std::vector<std::vector<double>> Q;
    if(s==0) Lanczos(A,ev,Q,m); else if(s==1) RestartLanczos(A,ev,Q,m); else if(s==2) ShiftedInvertLanczos(A,ev,Q,m,sigma); else if(s==3) GeneralShiftedInvertLanczos(A,B,ev,Q,m,sigma); else GeneralRestartShiftedInvertLanczos(A,B,ev,Q,m,sigma);
    vc_reach("lanczos"); std::string L=std::string(NM[s])+": "; bool ok=(int)ev.size()==m&&(int)Q.size()==m&&gCalls==m&&gInv==m&&(int)gA.size()==m&&(int)gB.size()>=m-1; vc_true(ok,L+"sizes"); if(!ok) return; for(auto&q:Q) if((int)q.size()!=n){ vc_true(false,L+"vector length"); return; }
    DM M(n,DV(n,0.0)); if(s>=3) M=b; else for(int i=0;i<n;i++) M[i][i]=1;
    if(!pert) for(int k=0;k<m;k++){ vc_eq(ev[k],s<2?gTheta[k]:sigma+1/gTheta[m-1-k],TOL,L+"k-th smallest eigenvalue of the original problem"); vc_eq(gPassed[k],s<2?gTheta[k]:gTheta[m-1-k],TOL,L+"eigenvector belongs to its eigenvalue"); }
    if(pert){ vc_eq(dot(Q[m-1],mvec(M,Q[0])),0,1e-6,L+"components along earlier basis vectors are removed when the linear solver is inexact"); return; }
    DM op; if(s<2) op=a; else { DM k=a; for(int i=0;i<n;i++) for(int j=0;j<n;j++) k[i][j]-=sigma*M[i][j]; if(n>5){ op=DM(n,DV(n)); for(int j=0;j<n;j++){ DV e(n,0.0); e[j]=1; DV x=gauss(k,e); for(int i=0;i<n;i++) op[i][j]=x[i]; } } else { double d=det_leibniz(k); op=adj(k); for(auto&r:op) for(auto&v:r) v/=d; } if(s>=3) op=mmul(b,mmul(op,b)); }
    for(int i=0;i<m;i++) for(int j=0;j<=i;j++){ vc_eq(dot(Q[i],mvec(M,Q[j])),i==j?1.0:0.0,1e-6,L+"basis is orthonormal in the inner product of the problem"); if(i-j<=1||m<4) vc_eq(dot(Q[i],mvec(op,Q[j])),i==j?gA[i]:i==j+1?gB[j]:0.0,1e-6,L+"projected operator is the tridiagonal matrix"); }
}
static DM E(int n){ DM e(n,DV(n,0.0)); for(int i=0;i<n;i++) e[i][i]=1; return e; }
static DM A3(double p){ return {{4,p,0.5},{p,3,-1},{0.5,-1,5}}; } static DM B3(double p){ return {{2,0.5,0},{0.5,1.5+p,0.25},{0,0.25,3}}; }
//@ time=200 jobs=2 | Lanczos and RestartLanczos, n=m=2: symbolic diagonal and off-diagonal
VC_ENTRY plain2(){ int s=vc_choose("solver",0,1); double p=vc_real("p",1,2),q=vc_real("q",0.25,1); go(s,{{p,q},{q,3}},E(2),2,0); }
//@ time=200 jobs=2 | Lanczos and RestartLanczos, n=3, m=1..3: one symbolic entry
VC_ENTRY plain3(){ int s=vc_choose("solver",0,1),m=vc_choose("m",1,3); go(s,A3(vc_real("p",0.25,1)),E(3),m,0); }
//@ time=200 jobs=3 | shifted-invert processes, n=2, m=1..2: symbolic shift and matrix entry, mass matrix not the identity
VC_ENTRY invert2(){ int s=vc_choose("solver",2,4),m=vc_choose("m",1,2); double sg=vc_real("sigma",-1,0.25); go(s,{{3,-0.5},{-0.5,2}},{{2,0.25},{0.25,0.5}},m,sg); }
//@ time=300 jobs=3 | shifted-invert processes, n=3, m=2: symbolic mass entry, fixed shift
VC_ENTRY invert3(){ int s=vc_choose("solver",2,4); go(s,A3(0.5),B3(s==2?0.0:vc_real("p",0,1)),2,s==2?vc_real("sigma",-1,0.5):0.25); }
//@ time=200 jobs=2 | shifted-invert processes, n=3, m=3: fixed matrices, symbolic Ritz values
VC_ENTRY invert33(){ int s=vc_choose("solver",2,4); go(s,A3(0.5),B3(0.25),3,-0.5); }
//@ time=300 jobs=2 | re-orthogonalising general process, n=m=5, fixed matrices, last linear solve perturbed (two components symbolic)
VC_ENTRY reorth(){ int n=5; DM a(n,DV(n,0.0)),b=a; for(int i=0;i<n;i++){ a[i][i]=3+0.5*i; b[i][i]=2+0.25*i; if(i){ a[i][i-1]=a[i-1][i]=-1; b[i][i-1]=b[i-1][i]=0.25; } } gPert=3; gDelta={vc_real("d0",-0.125,0.125),-0.0625,0.25,vc_real("d1",-0.125,0.125),0.03125}; go(4,a,b,5,0.0,true); gPert=-1; }
//@ time=200 jobs=2 | all five processes, n=8 and 10, m=n/2..n, fixed banded matrices, symbolic Ritz values: orthonormal basis, tridiagonal projection, eigenvalue transformation
VC_ENTRY larger(){ int s=vc_choose("solver",0,4),n=vc_choose("n",4,5)*2,m=vc_choose("full",0,1)?n-2:n/2; DM a(n,DV(n,0.0)),b=a; for(int i=0;i<n;i++){ a[i][i]=3+0.5*i+(i%2); b[i][i]=2+0.25*i; if(i){ a[i][i-1]=a[i-1][i]=-1; b[i][i-1]=b[i-1][i]=0.25; } if(i>1) a[i][i-2]=a[i-2][i]=0.25; } go(s,a,b,m,s>=2?-0.375:0); }
