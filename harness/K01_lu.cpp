// Direct solver: for every nonsingular matrix (any pivot order), factorise + solve gives A x = b, and P A = L U.
#include "common.h"
#include "LinearAlgebra/Solvers/LU.h"
static void lu(const DM&a,const DV&b,double dmin){
    int n=a.size(); if(dmin>0){ double d=det_leibniz(a); vc_assume_lt(dmin*dmin,d*d); }
    Matrix<double> A=tom(a); std::vector<int> piv(n,-1); LU(A,piv); Vector<double> x=tov(b); SolveLU(A,x,piv); vc_reach("solve");
    std::vector<int> cnt(n,0); for(int i=0;i<n;i++){ bool ok=piv[i]>=0&&piv[i]<n; vc_true(ok,"pivot in range"); if(ok) cnt[piv[i]]++; } for(int i=0;i<n;i++) vc_true(cnt[i]==1,"pivot is a permutation");
    for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double s=0; for(int k=0;k<=i&&k<=j;k++) s+=(k==i?1.0:A(i,k))*A(k,j); vc_eq(s,a[piv[i]][j],TOL,"PA=LU"); }
    for(int i=0;i<n;i++){ double s=0; for(int j=0;j<n;j++) s+=a[i][j]*x(j); vc_eq(s,b[i],TOL,"Ax=b"); }
    Vector<double> y=tov(b)*2.0; SolveLU(A,y,piv); for(int i=0;i<n;i++) vc_eq(y(i),2*x(i),TOL,"second right-hand side");
    // partial pivoting: the multipliers stay bounded
    for(int i=1;i<n;i++) for(int j=0;j<i;j++) if(j==0||n<=2||dmin<=0) vc_le(A(i,j)*A(i,j),1,1e-7,"|multiplier|<=1");
}
//@ time=60 | n=1,2: all entries in [-2,2], |det|>0.05
VC_ENTRY lu2(){ int n=vc_choose("n",1,2); lu(symm("a",n,n),symv("b",n),0.05); }
//@ time=300 jobs=4 | n=3: six entries (two columns) any in [-2,2], third column fixed; every right-hand side; |det|>0.05
VC_ENTRY lu3(){ DM a=symm("a",3,3); a[0][2]=0.5; a[1][2]=-1; a[2][2]=0.25; a[0][1]=1; a[1][1]=0.75; lu(a,symv("b",3),0.05); }
//@ time=300 jobs=4 | n=4: first column symbolic (every pivot choice in the first elimination step), rest fixed; every right-hand side
VC_ENTRY lu4(){ DM a{{0,1,2,-1},{0,-1,0.5,1},{0,0.5,3,1},{0,2,-1,0.25}}; for(int i=0;i<4;i++) a[i][0]=vc_real(vc_nm("a",i),-2,2); lu(a,symv("b",4),0.05); }
//@ time=100 | n=4: permuted diagonals - every one of the 24 row orders, symbolic nonzero values
VC_ENTRY lu_perm(){ std::vector<int> p(4); for(int i=0;i<4;i++){ p[i]=vc_choose(vc_nm("p",i),0,3); for(int j=0;j<i;j++) vc_assume(p[i]!=p[j]); } DM a(4,DV(4,0.0)); for(int i=0;i<4;i++) a[i][p[i]]=vc_real(vc_nm("d",i),0.5,2); lu(a,symv("b",4),0.01); }
//@ time=800 jobs=6 tier=thorough solver=60000 | n=3: all nine entries symbolic, two right-hand side entries symbolic
VC_ENTRY lu3full(){ DV b=symv("b",2); b.push_back(1.0); lu(symm("a",3,3),b,0.1); }
static DM fixedm(int n,int w){ DM a(n,DV(n,0.0)); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ int h=(i*7+j*13+w*5+i*j*3)%11; a[i][j]= w==2? (((i+1)%n==j)?2.0:(abs(i-j)==2?0.25:0.0)) : (h-5)*0.25+((n-1-i)==j?3.0:0.0); } return a; }
//@ time=300 jobs=4 | n=5..8: three fixed matrices each (full, needing exchanges; cyclic sparse with zero diagonal), every right-hand side
VC_ENTRY lu_larger(){ int n=vc_choose("n",5,8),w=vc_choose("w",0,2); lu(fixedm(n,w),symv("b",n),0); }
//@ time=300 jobs=4 | n=1..4, three fixed matrices each scaled by any factor in [1e-9,1e9], every right-hand side (also scaled): no absolute threshold
VC_ENTRY lu_scale(){ int n=vc_choose("n",1,4),w=vc_choose("w",0,2); double s=vc_real("s",1e-9,1e9); DM a=fixedm(n,w); if(n==1) a[0][0]=1.5; if(n==2&&w==2) a={{0,2},{2,0.25}}; DM as=a; for(auto&r:as) for(auto&x:r) x*=s; DV b=symv("b",n,-1000,1000); Matrix<double> A=tom(as); std::vector<int> piv(n,-1); LU(A,piv); Vector<double> x=tov(b); SolveLU(A,x,piv); vc_reach("scale"); for(int i=0;i<n;i++){ double t=0; for(int j=0;j<n;j++) t+=a[i][j]*(s*x(j)); vc_eq(t,b[i],TOL,"s A x = b"); } }
//@ time=300 jobs=4 | n=3: one row scaled by any factor in [1e-9,1] (badly scaled but nonsingular), every row position
VC_ENTRY lu_rowscale(){ int k=vc_choose("row",0,2); double s=vc_real("s",1e-9,1); DM a{{1,2,-1},{-2,0.5,1},{0.5,1,3}},as=a; for(auto&x:as[k]) x*=s; DV b=symv("b",3,-10,10),bs=b; bs[k]=b[k]*s; Matrix<double> A=tom(as); std::vector<int> piv(3,-1); LU(A,piv); Vector<double> x=tov(bs); SolveLU(A,x,piv); vc_reach("rowscale"); for(int i=0;i<3;i++){ double t=0; for(int j=0;j<3;j++) t+=a[i][j]*x(j); vc_eq(t,b[i],TOL,"row-scaled A x = b"); } }
