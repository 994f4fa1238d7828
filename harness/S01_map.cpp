// Any history of writes to a sparse matrix, in both storage formats: last write wins, untouched entries are zero.
#define VC_TOL 0
#define VC_LIM 1000000
#include "sparse.h"
struct Op{ int r,c; double v; };
static double last(const std::vector<Op>&h,int r,int c){ for(int i=(int)h.size()-1;i>=0;i--) if(h[i].r==r&&h[i].c==c) return h[i].v; return 0.0; }
static bool seen(const std::vector<Op>&h,int r,int c){ for(auto&o:h) if(o.r==r&&o.c==c) return true; return false; }
template<class M> static void hist(int R,int C,int n,bool conv){
    M m(R,C); std::vector<Op> h; LILCSR<double> l0(R,C);
    for(int k=0;k<n;k++){ Op o; o.r=vc_choose(vc_nm("r",k),0,R-1); o.c=vc_int(vc_nm("c",k),0,C-1); o.v=vc_real(vc_nm("v",k),-1000000,1000000); bool was=seen(h,o.r,o.c); bool ret=m.set(o.r,o.c,o.v); vc_true(ret==was,"set reports whether the entry existed"); h.push_back(o); }
    int qr=vc_choose("qr",0,R-1),qc=vc_int("qc",0,C-1); vc_reach("history"); vc_eq(m.get(qr,qc),last(h,qr,qc),TOL,"get after history");
    (void)conv;
}
//@ time=400 | CSR: every history of 3 writes, 2 rows, any columns out of 1000, any values, then any read
VC_ENTRY csr_history(){ hist<CSR<double>>(2,1000,3,false); }
//@ time=400 | LILCSR: every history of 3 writes, 2 rows, any columns out of 1000, any values, then any read
VC_ENTRY lil_history(){ hist<LILCSR<double>>(2,1000,3,false); }
//@ time=500 jobs=4 | CSR: every history of 4 writes, 2 rows, any columns out of 10^6
VC_ENTRY csr_history4(){ hist<CSR<double>>(2,1000000,4,false); }
//@ time=500 jobs=4 | LILCSR: every history of 4 writes
VC_ENTRY lil_history4(){ hist<LILCSR<double>>(2,1000000,4,false); }
//@ time=500 jobs=4 | CSR: every history of 3 writes in 3 rows
VC_ENTRY csr_history33(){ hist<CSR<double>>(3,1000,3,false); }
// conversions
//@ time=300 jobs=4 | LILCSR -> CSR -> LILCSR: every history of 3 writes in any order (any of 2x3 positions, any values), whole matrices compared, then one further write anywhere
VC_ENTRY convert(){
    const int R=2,C=3; LILCSR<double> l(R,C); std::vector<Op> h;
    for(int k=0;k<3;k++){ Op o; int rc=vc_choose(vc_nm("rc",k),0,R*C-1); o.r=rc/C; o.c=rc%C; o.v=vc_real(vc_nm("v",k),-1000000,1000000); l.set(o.r,o.c,o.v); h.push_back(o); }
    CSR<double> c(l); LILCSR<double> b(c); DM e(R,DV(C)); for(int i=0;i<R;i++) for(int j=0;j<C;j++) e[i][j]=last(h,i,j); vc_reach("convert");
    eqs(c,e,"LILCSR->CSR"); eqs(b,e,"CSR->LILCSR"); eqs(l,e,"source unchanged"); DV x=symv("x",C); eqd(c*x,mvec(e,x),"product after conversion"); eqd(b*x,mvec(e,x),"product after conversion back");
    for(int i=0;i<R;i++) for(int j=0;j<C;j++){ CSR<double> c2(c); bool ret=c2.set(i,j,7.0); vc_true(ret==seen(h,i,j),"write after conversion reports existence"); DM e2=e; e2[i][j]=7; eqs(c2,e2,"write after conversion"); LILCSR<double> b2(b); b2.set(i,j,7.0); eqs(b2,e2,"write after conversion back"); }
    eqs(c,e,"copies independent");
}
//@ time=100 | empty matrices 1..3 x 1..3: every entry reads zero, products are zero
VC_ENTRY empty(){ int R=vc_choose("R",1,3),C=vc_choose("C",1,3); CSR<double> c(R,C); LILCSR<double> l(R,C); DM z(R,DV(C,0.0)); vc_reach("empty"); eqs(c,z,"empty CSR"); eqs(l,z,"empty LILCSR"); DV x=symv("x",C); eqd(c*x,DV(R,0.0),"0*x"); eqd(l*x,DV(R,0.0),"0*x lil"); CSR<double> c2(l); eqs(c2,z,"empty converted"); LILCSR<double> l2(c); eqs(l2,z,"empty converted back"); }
template<class M> static void longrow(){ const int C=100; M m(3,C); static const int col[3][9]={{50,3,97,20,71,8,33,88,60},{99,0,1,98,2,97,50,51,49},{5,4,3,2,1,0,6,7,8}}; DM e(3,DV(C,0.0)); int w=vc_choose("order",0,1); for(int t=0;t<9;t++) for(int i=0;i<3;i++){ int k=w?8-t:t; double v=vc_real(vc_nm("v",i,k),-1000000,1000000); m.set(i,col[i][k],v); e[i][col[i][k]]=v; }
    int r=vc_choose("r",0,2),c=vc_int("c",0,C-1); double v=vc_real("v",-1000000,1000000); bool was=false; for(int k=0;k<9;k++) if(col[r][k]==c) was=true; bool ret=m.set(r,c,v); vc_true(ret==was,"set reports whether the entry existed"); int qr=vc_choose("qr",0,2),qc=vc_int("qc",0,C-1); double want=0; for(int k=0;k<9;k++) if(col[qr][k]==qc) want=e[qr][col[qr][k]]; if(qr==r&&qc==c) want=v; vc_reach("longrow"); vc_eq(m.get(qr,qc),want,TOL,"read after a write into long rows"); }
//@ time=500 jobs=4 | CSR: rows of 9 entries built in two orders, then any write, then any read
VC_ENTRY csr_longrow(){ longrow<CSR<double>>(); }
//@ time=500 jobs=4 | LILCSR: rows of 9 entries built in two orders, then any write, then any read
VC_ENTRY lil_longrow(){ longrow<LILCSR<double>>(); }
// rows of more entries than any small-row shortcut would cover, filled in a scrambled order
template<class F> static void filllong(F set,int R,int N,DM&e,int w){ for(int i=0;i<R;i++) for(int k=0;k<N;k++){ int c=w==0?(k*23+i*7)%(2*N+3):w==1?2*N+2-2*k:(k==0?0:k==N-1?2*N+2:2*N+1-2*k); bool was=e[i][c]!=0; double v=vc_real(vc_nm("v",i,k),0.5,1000000); if(k%3==1) v=-v; set(i,c,v); e[i][c]=v; (void)was; } }
//@ time=300 | LILCSR -> CSR -> LILCSR with 2 rows of 40 entries filled in three scrambled orders, all values: any read of any column, the product, and one further write anywhere
VC_ENTRY convert_long(){ const int R=2,N=40,C=2*N+3; LILCSR<double> l(R,C); DM e(R,DV(C,0.0)); filllong([&](int i,int j,double v){ l.set(i,j,v); },R,N,e,vc_choose("order",0,2)); CSR<double> c(l); LILCSR<double> b(c); vc_reach("convlong"); eqs(c,e,"LILCSR->CSR (long)"); eqs(b,e,"CSR->LILCSR (long)"); eqs(l,e,"source unchanged"); DV x(C); for(int j=0;j<C;j++) x[j]=0.5+0.125*(j%5); eqd(c*x,mvec(e,x),"product"); c.set(1,41,7.0); e[1][41]=7; eqs(c,e,"write after conversion"); }
//@ time=300 | the same rows written directly to CSR and LILCSR
VC_ENTRY direct_long(){ const int R=2,N=40,C=2*N+3; int w=vc_choose("order",0,2); DM e(R,DV(C,0.0)); vc_reach("dirlong"); if(vc_choose("kind",0,1)){ CSR<double> m(R,C); filllong([&](int i,int j,double v){ m.set(i,j,v); },R,N,e,w); eqs(m,e,"CSR"); } else { LILCSR<double> m(R,C); filllong([&](int i,int j,double v){ m.set(i,j,v); },R,N,e,w); eqs(m,e,"LILCSR"); } }
//@ time=120 | the value written is any number in [-1e-6,1e-6] or any in [-1e12,1e12]: read back exactly before and after conversion
VC_ENTRY magnitudes(){ double v=vc_choose("w",0,1)?vc_real("v",-1e-6,1e-6):vc_real("V",-1e12,1e12); LILCSR<double> l(2,3); CSR<double> m(2,3); l.set(1,2,v); l.set(1,0,v*1e-9); l.set(0,1,2.0); m.set(1,2,v); m.set(1,0,v*1e-9); m.set(0,1,2.0); CSR<double> c(l); LILCSR<double> b(c); vc_reach("magn"); DM e{{0,2.0,0},{v*1e-9,0,v}}; eqs(l,e,"LILCSR"); eqs(m,e,"CSR"); eqs(c,e,"converted"); eqs(b,e,"converted back"); }
