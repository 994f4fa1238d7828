// Incomplete factorisation: matches A on A's own sparsity pattern, exact when no fill-in occurs; triangular solves invert L U.
#include "krylov.h"
typedef std::vector<std::vector<int>> PAT;
static void ilu(const DM&a,const PAT&p,const DV&b){
    int n=a.size(); CSR<double> A(n,n); setcsr(A,a,p); CSR<double> Q=ILU0(A); vc_reach("ilu"); DM q(n,DV(n)); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ q[i][j]=Q.get(i,j); if(!p[i][j]) vc_eq(q[i][j],0,TOL,"no fill-in"); }
    DM lu(n,DV(n,0.0)); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double s=0; for(int k=0;k<=i&&k<=j;k++) s+=(k==i?1.0:q[i][k])*q[k][j]; lu[i][j]=s; if(p[i][j]) vc_eq(s,a[i][j],1e-6,"LU=A on the pattern"); }
    std::vector<double> bb=b; std::vector<double> x=PreILU0(Q,bb); eqd(mvec(lu,x),b,"(LU)x=b",1e-6); eqd(bb,b,"b unchanged");
    eqs(A,[&]{ DM t=a; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(!p[i][j]) t[i][j]=0; return t; }(),"A unchanged");
}
//@ time=400 jobs=4 | n=3: every pattern with a full diagonal (64), diagonal entries in [2,3], off-diagonal symbolic in [-0.5,0.5], every b
VC_ENTRY ilu3(){ int m=vc_choose("pat",0,63); PAT p(3,std::vector<int>(3,1)); int k=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(i!=j) p[i][j]=(m>>k++)&1; DM a(3,DV(3,0.0)); for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(p[i][j]) a[i][j]= i==j? vc_real(vc_nm("a",i,j),2,3):vc_real(vc_nm("a",i,j),-0.5,0.5); ilu(a,p,symv("b",3)); }
//@ time=300 jobs=2 | n=4: tridiagonal, arrow and 4-cycle patterns, symbolic off-diagonal entries, every b
VC_ENTRY ilu4(){ int w=vc_choose("w",0,2); PAT p(4,std::vector<int>(4,0)); DM a(4,DV(4,0.0)); for(int i=0;i<4;i++) for(int j=0;j<4;j++){ bool on= i==j||(w==0&&abs(i-j)==1)||(w==1&&(i==0||j==0))||(w==2&&(abs(i-j)==1||abs(i-j)==3)); p[i][j]=on; if(on) a[i][j]= i==j? 4.0+i: (i<j? vc_real(vc_nm("a",i,j),-1,1): 0.5*(1+i-j)); } ilu(a,p,symv("b",4)); }
//@ time=800 jobs=6 tier=thorough | n=4: every symmetric pattern (64), fixed diagonal, upper triangle symbolic
VC_ENTRY ilu4sym(){ int m=vc_choose("pat",0,63); PAT p(4,std::vector<int>(4,0)); DM a(4,DV(4,0.0)); int k=0; for(int i=0;i<4;i++){ p[i][i]=1; a[i][i]=4+i; for(int j=i+1;j<4;j++){ int on=(m>>k++)&1; p[i][j]=p[j][i]=on; if(on){ a[i][j]=vc_real(vc_nm("a",i,j),-1,1); a[j][i]=0.5*(1+j-i); } } } ilu(a,p,symv("b",4)); }
//@ time=100 | diagonal extraction and diagonal scaling, n=3, all values
VC_ENTRY diag(){ DM a=symm("a",3,3); for(int i=0;i<3;i++) a[i][i]=vc_real(vc_nm("d",i),0.5,3); int m=vc_choose("skip",0,1); PAT p(3,std::vector<int>(3,1)); if(m){ p[0][2]=p[1][0]=0; } CSR<double> A(3,3); setcsr(A,a,p); std::vector<double> D=GetDiagonal(A); vc_reach("diag"); eqd(D,{a[0][0],a[1][1],a[2][2]},"GetDiagonal"); std::vector<double> b=symv("b",3); eqd(Scaling(D,b),{b[0]/a[0][0],b[1]/a[1][1],b[2]/a[2][2]},"Scaling"); }
//@ time=300 jobs=4 | n=4: every one of the 4096 patterns with a full diagonal; fixed irregular values, every b (symbolic)
VC_ENTRY ilu4all(){ int hi=vc_choose("row3",0,7); for(int lo=0;lo<512;lo++){ int m=lo|(hi<<9); PAT p(4,std::vector<int>(4,0)); DM a(4,DV(4,0.0)); int k=0; for(int i=0;i<4;i++) for(int j=0;j<4;j++){ int on= i==j?1:(m>>k++)&1; p[i][j]=on; if(on) a[i][j]= i==j? 4.0+i: 0.25*(1+((3*i+5*j)%7))*((i+j)%2?1:-1); } static DV b; if(b.empty()) b=symv("b",4); ilu(a,p,b); } }
//@ time=1500 jobs=6 tier=thorough | n=4: every one of the 4096 patterns with a full diagonal; last row and b symbolic, other values fixed and irregular
VC_ENTRY ilu4row(){ int m=vc_choose("pat",0,4095); PAT p(4,std::vector<int>(4,0)); DM a(4,DV(4,0.0)); int k=0; for(int i=0;i<4;i++) for(int j=0;j<4;j++){ int on= i==j?1:(m>>k++)&1; p[i][j]=on; if(on) a[i][j]= i==3? (j==3?vc_real("a33",6,8):vc_real(vc_nm("a",i,j),-1,1)): i==j? 4.0+i: 0.25*(1+((3*i+5*j)%7))*((i+j)%2?1:-1); } ilu(a,p,symv("b",4)); }
//@ time=200 | n=4..7, three sparse families (band, arrow, 2-band with a corner) scaled by any factor in [1e-12,1e12]: factor entries above/on the diagonal scale with the matrix, LU=A on the pattern, solves exact
VC_ENTRY ilu_scale(){ int n=vc_choose("n",4,7),w=vc_choose("w",0,2); double s=vc_real("s",1e-12,1e12); PAT p(n,std::vector<int>(n,0)); DM a(n,DV(n,0.0)); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ bool on= i==j||(w==0&&abs(i-j)<=1)||(w==1&&(i==0||j==0))||(w==2&&(abs(i-j)==2||abs(i-j)==n-1)); p[i][j]=on; if(on) a[i][j]= i==j? 4.0+i: 0.25*(1+((3*i+5*j)%7))*((i+j)%2?1:-1); } CSR<double> A(n,n); for(int i=0;i<n;i++) for(int j=n-1;j>=0;j--) if(p[i][j]) A.set(i,j,a[i][j]*s); CSR<double> Q=ILU0(A); vc_reach("iluscale"); DM q(n,DV(n)),lu(n,DV(n,0.0)); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ q[i][j]=i>j?Q.get(i,j):Q.get(i,j)/s; if(!p[i][j]) vc_eq(q[i][j],0,TOL,"no fill-in (scaled)"); } for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double t=0; for(int k=0;k<=i&&k<=j;k++) t+=(k==i?1.0:q[i][k])*q[k][j]; lu[i][j]=t; if(p[i][j]) vc_eq(t,a[i][j],1e-9,"LU=A on the pattern (scaled)"); } DV b=symv("b",n); std::vector<double> x=PreILU0(Q,b); for(auto&v:x) v*=s; eqd(mvec(lu,x),b,"(LU)x=b (scaled)",1e-9); std::vector<double> D=GetDiagonal(A),z=Scaling(D,b); for(int i=0;i<n;i++) vc_eq(z[i]*s*a[i][i],b[i],1e-9,"diagonal scaling (scaled)"); }
