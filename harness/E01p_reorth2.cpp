// Re-orthogonalisation of the plain process (white box): one matrix-vector product is inexact.
#include "sparse.h"
#include "LinearAlgebra/Models/CSR.h"
static int gMul,gMulPert=-1,gInv; static DV gDelta;
template<> const std::vector<double> CSR<double>::operator*(const std::vector<double>&x){ std::vector<double> y(ROWS,0.0); for(int i=0;i<ROWS;i++) for(int j=0;j<COLS;j++) y[i]+=get(i,j)*x[j]; if(gMul==gMulPert) for(int i=0;i<ROWS;i++) y[i]+=gDelta[i]; gMul++; return y; }
#include "LinearAlgebra/Solvers/Lanczos.h"
template<> double BisectionMethod<double>(const std::vector<double>&,const std::vector<double>&,int mode){ return 1.0+mode; }
template<> std::vector<double> InversePowerMethod<double>(const std::vector<double>&a,const std::vector<double>&,double){ std::vector<double> y(a.size(),0.0); if(gInv<(int)y.size()) y[gInv]=1.0; gInv++; return y; }
static double dot(const DV&a,const DV&b){ double s=0; for(size_t i=0;i<a.size();i++) s+=a[i]*b[i]; return s; }
//@ time=300 jobs=2 | re-orthogonalising process, n=m=6 and 7, fixed matrix, the last matrix-vector product perturbed (one component symbolic): the last basis vector has no component along any earlier basis vector but the three latest
VC_ENTRY reorth_plain(){ int n=vc_choose("n",6,7); DM a(n,DV(n,0.0)); for(int i=0;i<n;i++){ a[i][i]=3+0.5*i+(i%2); if(i) a[i][i-1]=a[i-1][i]=-1; if(i>1) a[i][i-2]=a[i-2][i]=0.25; } CSR<double> A=tocsr(a); gInv=gMul=0; gMulPert=n-2; gDelta=DV(n); for(int i=0;i<n;i++) gDelta[i]=0.0625*((i*3)%5-2); gDelta[1]=vc_real("d0",-0.125,0.125); gDelta[n-1]=0.09375; std::vector<double> ev; std::vector<std::vector<double>> Q; RestartLanczos(A,ev,Q,n); gMulPert=-1; vc_reach("reorth"); vc_true(gMul>=n,"products"); bool ok=(int)Q.size()==n; for(auto&q:Q) ok=ok&&(int)q.size()==n; vc_true(ok,"sizes"); if(!ok) return; for(int i=0;i+3<n-1;i++) vc_eq(dot(Q[n-1],Q[i]),0,1e-6,"no component along an earlier basis vector"); }
