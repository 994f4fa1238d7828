// Re-orthogonalisation (white box): the matrix-vector product and the linear solver are inexact in one step; the components
// along the earlier basis vectors that the method removes must be gone from the next basis vector.
#include "sparse.h"
#include "LinearAlgebra/Solvers/Lanczos.h"
static int gMul,gMulPert=-1,gSol,gSolPert=-1,gInv; static DV gDelta; static DM gDense;
template<> double BisectionMethod<double>(const std::vector<double>&,const std::vector<double>&,int mode){ return 1.0+mode; }
template<> std::vector<double> InversePowerMethod<double>(const std::vector<double>&a,const std::vector<double>&,double){ std::vector<double> y(a.size(),0.0); if(gInv<(int)y.size()) y[gInv]=1.0; gInv++; return y; }
static DV gauss(DM a,DV b){ int n=b.size(); for(int k=0;k<n;k++) for(int i=k+1;i<n;i++){ double f=a[i][k]/a[k][k]; for(int j=k;j<n;j++) a[i][j]-=f*a[k][j]; b[i]-=f*b[k]; } for(int i=n-1;i>=0;i--){ for(int j=i+1;j<n;j++) b[i]-=a[i][j]*b[j]; b[i]/=a[i][i]; } return b; }
template<> std::vector<double> ScalingCG<double>(CSR<double>&A,const std::vector<double>&b,int,double){ int n=b.size(); DM a(n,DV(n)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) a[i][j]=A.get(i,j); DV x=gauss(a,b); if(gSol==gSolPert) for(int i=0;i<n;i++) x[i]+=gDelta[i]; gSol++; return x; }
static double dot(const DV&a,const DV&b){ double s=0; for(size_t i=0;i<a.size();i++) s+=a[i]*b[i]; return s; }
static void mats(int n,DM&a,DM&b){ a=DM(n,DV(n,0.0)); b=a; for(int i=0;i<n;i++){ a[i][i]=3+0.5*i+(i%2); b[i][i]=2+0.25*i; if(i){ a[i][i-1]=a[i-1][i]=-1; b[i][i-1]=b[i-1][i]=0.25; } if(i>1) a[i][i-2]=a[i-2][i]=0.25; } }
//@ time=300 jobs=2 | re-orthogonalising general process, n=m=6 and 7, fixed matrices, the last linear solve perturbed (one component symbolic): the last basis vector has no component along any earlier basis vector but the three latest
VC_ENTRY reorth_general(){ int n=vc_choose("n",6,7); DM a,b; mats(n,a,b); CSR<double> A=tocsr(a),B=tocsr(b); gInv=gSol=0; gSolPert=n-2; gDelta=DV(n); for(int i=0;i<n;i++) gDelta[i]=0.0625*((i*3)%5-2); gDelta[1]=vc_real("d0",-0.125,0.125); gDelta[n-1]=0.09375; std::vector<double> ev; std::vector<std::vector<double>> Q; GeneralRestartShiftedInvertLanczos(A,B,ev,Q,n,0.25); gSolPert=-1; vc_reach("reorth"); bool ok=(int)Q.size()==n; for(auto&q:Q) ok=ok&&(int)q.size()==n; vc_true(ok,"sizes"); if(!ok) return; for(int i=0;i+3<n-1;i++) vc_eq(dot(Q[n-1],mvec(b,Q[i])),0,1e-6,"no component along an earlier basis vector"); }
