// Stationary iteration: each sweep is the SOR update; convergence is only reported when the iterate stopped changing; fixed point solves the system.
#include "krylov.h"
static DV sweep(const DM&a,const DV&b,DV x,double w){ int n=a.size(); for(int i=0;i<n;i++){ double s=b[i]; for(int j=0;j<n;j++) if(j!=i) s-=a[i][j]*x[j]; s/=a[i][i]; x[i]=x[i]+w*(s-x[i]); } return x; }
//@ time=200 jobs=2 | n=2,3: diagonally dominant systems with symbolic entries, every b, every relaxation w in [0.5,1.8]; 1..2 sweeps
VC_ENTRY sweeps(){ int n=vc_choose("n",2,3),it=vc_choose("it",0,2); DM a(n,DV(n,0.0)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) a[i][j]= i==j? 4.0+i: (i<j? vc_real(vc_nm("a",i,j),-1,1):0.75); DV b=symv("b",n,0.5,2); double w=vc_real("w",0.5,1.8); CSR<double> A=tocsr(a); std::vector<double> x=SOR(A,b,w,it,0.0); DV y(n,0.0); for(int k=0;k<it;k++) y=sweep(a,b,y,w); vc_reach("sweeps"); eqd(x,y,"SOR sweeps"); }
//@ time=200 | zero entries in the right-hand side: n=2, b=(b0,0); the result is finite and within tolerance of the solution
VC_ENTRY zero_entry(){ DM a{{4,1},{1,3}}; double b0=vc_real("b0",0.5,2); int z=vc_choose("z",0,1); DV b{z?0.0:b0,z?b0:0.0}; CSR<double> A=tocsr(a); std::vector<double> x=SOR(A,b,1.0,40,1e-6); DV r=resid(a,x,b); vc_reach("zero_entry"); for(double v:r) vc_eq(v,0,1e-4,"SOR solves"); }
//@ time=200 jobs=2 | n=5, entries stored only where nonzero (arrow and band patterns), two symbolic entries, every b and w; 1..2 sweeps
VC_ENTRY sparse_sweeps(){ int p=vc_choose("p",0,1),it=vc_choose("it",1,2),n=5; DM a(n,DV(n,0.0)); for(int i=0;i<n;i++){ a[i][i]=4+0.5*i; if(p==0){ if(i) a[i][i-1]=-1.25; if(i<n-1) a[i][i+1]=0.75; } else if(i!=2){ a[2][i]=0.5+0.25*i; a[i][2]=-1; } } if(p==0) a[1][2]=vc_real("e",-1,1); else a[2][4]=vc_real("e",-1,1); CSR<double> A(n,n); for(int j=n-1;j>=0;j--) for(int i=0;i<n;i++) if(i==j||(p==0?abs(i-j)==1:(i==2||j==2))) A.set(i,j,a[i][j]); DV b=symv("b",n,0.5,2); double w=vc_real("w",0.25,1.9); std::vector<double> x=SOR(A,b,w,it,0.0); DV y(n,0.0); for(int k=0;k<it;k++) y=sweep(a,b,y,w); vc_reach("sparse"); eqd(x,y,"SOR sweeps (sparse)"); }
//@ time=200 jobs=2 | stopping: three fixed diagonally dominant systems of size 3..5, relaxation 0.75/1/1.25, every tolerance in [1e-7,1], up to 40 sweeps: the result is an iterate whose last change is below the tolerance (or the 40th)
VC_ENTRY stopping(){ int n=vc_choose("n",3,5),wi=vc_choose("w",0,2); double w=0.75+0.25*wi; DM a=nonsym(n,n==4?1:0); for(int i=0;i<n;i++) a[i][i]+=4; DV b(n); for(int i=0;i<n;i++) b[i]=1+0.5*i*(i%2?-1:1)+(i==2?2:0); double eps=vc_real("eps",1e-7,1); CSR<double> A=tocsr(a); std::vector<double> x=SOR(A,b,w,40,eps); vc_reach("stopping"); DV y(n,0.0); bool ok=false; for(int k=1;k<=40;k++){ DV z=sweep(a,b,y,w); double err=0; bool same=true; for(int i=0;i<n;i++){ err+=std::fabs((y[i]-z[i])/y[i]); if(!(std::fabs(z[i]-x[i])<=1e-13*(1+std::fabs(z[i])))) same=false; } y=z; if(same&&(k==40||!(eps<=err))) ok=true; } vc_true(ok,"stops only at an iterate within the tolerance"); DV r=resid(a,x,b); double rn=0; for(double v:r) rn+=std::fabs(v); vc_le(rn,eps*200,1e-9,"residual shrinks with the tolerance"); }
//@ time=200 | n=3, right-hand side of any magnitude in [1e-9,1e9], matrix of any magnitude 2^-30, 1, 2^30: 3 sweeps are the textbook sweeps scaled
VC_ENTRY scaled_sweeps(){ int m=vc_choose("mag",-1,1); double ms=m<0?0x1p-30:m>0?0x1p30:1.0,s=vc_real("s",1e-9,1e9); DM a{{4,1,-0.5},{0.75,3,1},{-1,0.5,5}}; DV b{1,-2,0.5},bs=b; for(auto&x:bs) x*=s; DM as=a; for(auto&r:as) for(auto&x:r) x*=ms; CSR<double> A=tocsr(as); std::vector<double> x=SOR(A,bs,1.25,3,0.0); DV y(3,0.0); for(int k=0;k<3;k++) y=sweep(a,b,y,1.25); vc_reach("scaledsweeps"); for(int i=0;i<3;i++) vc_eq(x[i]*ms/s,y[i],1e-9,"SOR sweeps (scaled)"); }
