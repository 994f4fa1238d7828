// Eigenvalues of symmetric tridiagonal matrices by bisection, for every scale of the matrix.
#include "sparse.h"
#include "LinearAlgebra/Solvers/Lanczos.h"
struct Tri { DV a,b,ev; };
static Tri fam(int w){ double r2=std::sqrt(2.0),r5=std::sqrt(5.0); switch(w){
    case 0: return {{3},{0},{3}}; case 1: return {{-2.5},{0.75},{-2.5}};
    case 2: return {{2,2},{1,0},{1,3}}; case 3: return {{1,-1},{2,0.5},{-r5,r5}};
    case 4: return {{2,2,2},{-1,-1,0},{2-r2,2,2+r2}}; case 5: return {{5,-1,2},{0,0,0},{-1,2,5}};
    case 6: return {{0,0,0},{1,1,1},{-r2,0,r2}}; case 7: return {{3,3,1},{0,0,4},{1,3,3}};
    case 8: return {{2,2,2,2},{1,1,1,3},{2-(1+r5)/2,2-(r5-1)/2,2+(r5-1)/2,2+(1+r5)/2}};
    case 9: return {{-4,-4,-4},{1,1,0},{-4-r2,-4,-4+r2}}; default: return {{1,2,2,7},{0,1,0,0},{1,1,3,7}}; } }
//@ time=300 jobs=4 | eleven tridiagonal matrices of size 1..4 (zero, repeated, negative eigenvalues, decoupled blocks), every scale in [0.001,1000], every mode: the mode-th smallest eigenvalue
VC_ENTRY bisect(){ int w=vc_choose("matrix",0,10); Tri t=fam(w); int m=t.a.size(),k=vc_choose("mode",0,m-1); double s=vc_real("scale",0.001,1000); DV a=t.a,b=t.b; for(auto&v:a) v*=s; for(auto&v:b) v*=s; double l=BisectionMethod(a,b,k); vc_reach("bisect"); vc_le(l,s*t.ev[k]+1e-9*s,1e-9,"not above the mode-th eigenvalue"); vc_le(s*t.ev[k]-1e-9*s,l,1e-9,"not below the mode-th eigenvalue"); }
//@ time=100 | linear combination of the basis: m = 1..3 basis vectors of length 1..4, all values
VC_ENTRY reconvert(){ int m=vc_choose("m",1,3),n=vc_choose("n",1,4); DM q=symm("q",m,n); DV y=symv("y",m); std::vector<std::vector<double>> Q=q; std::vector<double> x=ReconvertVector(y,Q); vc_reach("reconvert"); vc_true((int)x.size()==n,"length"); if((int)x.size()==n) for(int i=0;i<n;i++){ double s=0; for(int k=0;k<m;k++) s+=q[k][i]*y[k]; vc_eq(x[i],s,TOL,"combination of the basis vectors"); } }
//@ time=200 jobs=4 | inverse iteration on seven fixed unreduced tridiagonal matrices of size 1..4, every mode, shift off the eigenvalue by +-1e-4, every value of the trailing off-diagonal (left over by the Lanczos process): unit eigenvector
VC_ENTRY inverse(){ static const int W[]={0,1,2,3,4,8,9}; Tri t=fam(W[vc_choose("matrix",0,6)]); int m=t.a.size(),k=vc_choose("mode",0,m-1); DV b=t.b; b[m-1]=vc_real("left",-2,2); std::vector<double> y=InversePowerMethod(t.a,b,t.ev[k]+(vc_choose("side",0,1)?1e-4:-1e-4)); vc_reach("inverse"); vc_true((int)y.size()==m,"length"); if((int)y.size()!=m) return; double n=0; for(double v:y) n+=v*v; vc_eq(n,1,1e-7,"unit length"); for(int i=0;i<m;i++){ double r=(t.a[i]-t.ev[k])*y[i]; if(i) r+=t.b[i-1]*y[i-1]; if(i+1<m) r+=t.b[i]*y[i+1]; vc_eq(r,0,1e-6,"eigenvector of the tridiagonal matrix"); } }
