// Sparse arithmetic agrees with dense arithmetic for every sparsity pattern and value, on every thread schedule.
#define VC_TOL 0
#define VC_LIM 1000000
#include "sparse.h"
typedef std::vector<std::vector<int>> PAT;
static PAT bits(const char*n,int R,int C){ int b=vc_choose(n,0,(1<<(R*C))-1); PAT p(R,std::vector<int>(C)); for(int i=0;i<R*C;i++) p[i/C][i%C]=(b>>i)&1; return p; }
static DM mask(DM a,const PAT&p){ for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a[0].size();j++) if(!p[i][j]) a[i][j]=0; return a; }
template<class M> static void fill(M&m,const DM&a,const PAT&p,bool rev){ int R=a.size(),C=a[0].size(); for(int t=0;t<R*C;t++){ int k=rev?R*C-1-t:t; if(p[k/C][k%C]) m.set(k/C,k%C,a[k/C][k%C]); } }
template<class M> static void pair22(int R,int C){
    PAT p=bits("p",R,C),q=bits("q",R,C); DM a=symm("a",R,C),b=symm("b",R,C); M A(R,C),B(R,C); fill(A,a,p,false); fill(B,b,q,true); DM pa=mask(a,p),pb=mask(b,q),s=pa,d=pa;
    for(int i=0;i<R;i++) for(int j=0;j<C;j++){ s[i][j]=pa[i][j]+pb[i][j]; d[i][j]=pa[i][j]-pb[i][j]; }
    vc_reach("pair"); eqs(A+B,s,"A+B"); eqs(A-B,d,"A-B"); eqs(A,pa,"A unchanged"); eqs(B,pb,"B unchanged");
}
//@ time=400 jobs=2 | CSR sums/differences: every pair of patterns of 2x2, all values
VC_ENTRY csr_pairs(){ pair22<CSR<double>>(2,2); }
//@ time=400 jobs=2 | LILCSR sums/differences: every pair of patterns of 2x2, all values
VC_ENTRY lil_pairs(){ pair22<LILCSR<double>>(2,2); }
//@ time=800 jobs=4 tier=thorough | CSR sums/differences: every pair of patterns of 2x3
VC_ENTRY csr_pairs23(){ pair22<CSR<double>>(2,3); }
//@ time=800 jobs=4 tier=thorough | LILCSR sums/differences: every pair of patterns of 1x5
VC_ENTRY lil_pairs15(){ pair22<LILCSR<double>>(1,5); }
template<class M> static void unary(int R,int C){
    PAT p=bits("p",R,C); DM a=symm("a",R,C); M A(R,C); fill(A,a,p,true); DM pa=mask(a,p),k1=pa,k2=pa; double k=vc_real("k",0.001,1000); for(auto&r:k1) for(auto&x:r) x*=k; for(auto&r:k2) for(auto&x:r) x/=k;
    DV x=symv("x",C); vc_reach("unary"); std::vector<double> y=A*x; eqd(y,mvec(pa,x),"A*x"); eqs(A*k,k1,"A*k"); eqs(k*A,k1,"k*A"); eqs(A/k,k2,"A/k"); { DM ng=pa,n1=pa,n2=pa; for(auto&r:ng) for(auto&v:r) v=-v; for(auto&r:n1) for(auto&v:r) v*=-k; for(auto&r:n2) for(auto&v:r) v/=-k; eqs(-1*A,ng,"-1*A"); eqs(A*(-1),ng,"A*-1"); eqs(A/(-1),ng,"A/-1"); eqs(-1.0*A,ng,"-1.0*A"); eqs((-k)*A,n1,"-k*A"); eqs(A*(-k),n1,"A*-k"); eqs(A/(-k),n2,"A/-k"); eqs(0*A,DM(R,DV(C,0.0)),"0*A"); eqs(1*A,pa,"1*A"); } eqs(2*A,[&]{ DM t=pa; for(auto&r:t) for(auto&v:r) v*=2; return t; }(),"2*A"); eqs(A,pa,"A unchanged"); for(int j=0;j<C;j++) vc_eq(x[j],x[j],TOL,"x unchanged");
}
//@ time=300 | CSR product with vector / scalars: every pattern of 2x3, all values; OpenMP: all 64 threads' accesses disjoint
VC_ENTRY csr_mul(){ unary<CSR<double>>(2,3); }
//@ time=300 | CSR: every pattern of 3x2
VC_ENTRY csr_mul32(){ unary<CSR<double>>(3,2); }
//@ time=300 | LILCSR: every pattern of 2x3
VC_ENTRY lil_mul(){ unary<LILCSR<double>>(2,3); }
//@ time=400 jobs=4 | CSR: every pattern of 3x3
VC_ENTRY csr_mul33(){ unary<CSR<double>>(3,3); }
//@ time=100 | 12x12 banded CSR, all values, all threads
VC_ENTRY csr_band(){ int n=12; DM a(n,DV(n,0.0)); CSR<double> A(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(abs(i-j)<=1||j==0){ a[i][j]=vc_real(vc_nm("a",i,j),-2,2); A.set(i,j,a[i][j]); } DV x=symv("x",n); vc_reach("band"); eqd(A*x,mvec(a,x),"A*x"); std::vector<double> z=A*(A*x); eqd(z,mvec(a,mvec(a,x)),"A*(A*x)"); }
template<class M> static void mergerows(){ const int R=2,C=9; static const int qb[4]={0x155,0x0aa,0x1c7,0x000}; int b=vc_choose("p",0,511),qi=vc_choose("q",0,1); PAT p(R,std::vector<int>(C)),q(R,std::vector<int>(C)); for(int j=0;j<C;j++){ p[0][j]=(b>>j)&1; p[1][j]=(b>>(8-j))&1; q[0][j]=(qb[qi]>>j)&1; q[1][j]=(qb[3-qi]>>j)&1; }
    DM a=symm("a",R,C),bb=symm("b",R,C); M A(R,C),B(R,C); fill(A,a,p,false); fill(B,bb,q,true); DM pa=mask(a,p),pb=mask(bb,q),s=pa,d=pa; for(int i=0;i<R;i++) for(int j=0;j<C;j++){ s[i][j]=pa[i][j]+pb[i][j]; d[i][j]=pa[i][j]-pb[i][j]; } vc_reach("merge"); eqs(A+B,s,"A+B"); eqs(A-B,d,"A-B"); eqs(B+A,s,"B+A"); DV x=symv("x",C); M S=A+B; std::vector<double> y=S*x; eqd(y,mvec(s,x),"(A+B)*x"); }
//@ time=500 jobs=4 | CSR sums of long rows: 2x9, every pattern of A against two pairs of interleaved patterns of B
VC_ENTRY csr_merge(){ mergerows<CSR<double>>(); }
//@ time=500 jobs=4 | LILCSR sums of long rows: 2x9, every pattern of A against two pairs of interleaved patterns of B
VC_ENTRY lil_merge(){ mergerows<LILCSR<double>>(); }
