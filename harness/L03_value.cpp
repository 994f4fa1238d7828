#define VC_TOL 0
#define VC_LIM 1000000
#include "common.h"
// every history of copies / assignments between objects of any sizes keeps the objects independent, leaks nothing and frees nothing twice
template<class F> static void balanced(F f,const char*l){ long n0=vc_live(); f(); vc_true(vc_live()==n0,l); }
//@ time=120 | sizes 0..3 on both sides, all values
VC_ENTRY vec_assign(){ int n=vc_choose("n",0,3),m=vc_choose("m",0,3); double x=vc_real("x",-2,2);
    balanced([&]{ DV a=symv("a",n),b=symv("b",m); Vector<double> A=tov(a),B=tov(b); A=B; eqv(A,b,"a=b"); if(m>0){ A(0)=x; eqv(B,b,"b unchanged after a changes"); vc_eq(A(0),x,TOL,"a(0) set"); } Vector<double> C(B); if(m>0) C(m-1)=x; eqv(B,b,"copy independent"); A=A; vc_true(A.SIZE()==m,"self assign"); vc_reach("va"); },"vector storage balanced"); }
//@ time=120 | shapes 0..2 x 0..2 on both sides
VC_ENTRY mat_assign(){ int r=vc_choose("r",0,2),c=vc_choose("c",0,2),p=vc_choose("p",1,2),q=vc_choose("q",1,3); double x=vc_real("x",-2,2);
    balanced([&]{ Matrix<double> A(r,c); DM b=symm("b",p,q); Matrix<double> B=tom(b); A=B; eqm(A,b,"A=B"); A(0,0)=x; eqm(B,b,"B unchanged"); Matrix<double> C(B); C(p-1,q-1)=x; eqm(B,b,"copy independent"); A=A; vc_eq(A(0,0),x,TOL,"self assign"); vc_reach("ma"); },"matrix storage balanced"); }
//@ time=60 | default-constructed objects: destroyed, copied, assigned to and from
VC_ENTRY default_objects(){ int k=vc_choose("k",0,7); vc_reach("def");
    balanced([&]{ 
        if(k==0){ Vector<double> v; vc_true(v.SIZE()==0,"empty vector"); }
        if(k==1){ Matrix<double> m; vc_true(m.ROW()==0&&m.COL()==0,"empty matrix"); }
        if(k==2){ Vector<double> v; Vector<double> w(v); vc_true(w.SIZE()==0,"copy of empty"); }
        if(k==3){ Vector<double> v; DV a=symv("a",3); v=tov(a); eqv(v,a,"assign to empty"); v=Vector<double>(); vc_true(v.SIZE()==0,"assign empty"); v=tov(a); eqv(v,a,"assign again"); }
        if(k==4){ Matrix<double> m; DM a=symm("a",2,2); m=tom(a); eqm(m,a,"assign to empty"); m=Matrix<double>(); vc_true(m.ROW()==0,"assign empty"); m=tom(a); eqm(m,a,"assign again"); }
        if(k==5){ Matrix<double> m; Matrix<double> w(m); vc_true(w.ROW()==0,"copy of empty"); }
        if(k==6){ std::vector<Vector<double>> vs(3); vs.push_back(Vector<double>(2)); vs.resize(6); vs.erase(vs.begin()); vc_true(vs.size()==5,"container of vectors"); }
        if(k==7){ std::vector<Matrix<double>> vs(2); vs.push_back(Matrix<double>(2,2)); vs.resize(5,Matrix<double>(1,3)); vs.erase(vs.begin()+1); vc_true(vs[3].COL()==3,"container of matrices"); }
    },"storage balanced"); }
//@ time=120 | freshly sized objects are zero; containers of vectors keep values through reallocation
VC_ENTRY zero_init(){ int n=vc_choose("n",1,4); Vector<double> v(n); Matrix<double> m(n,n+1); for(int i=0;i<n;i++){ vc_eq(v(i),0,0,"vector zero"); for(int j=0;j<=n;j++) vc_eq(m(i,j),0,0,"matrix zero"); } vc_reach("zero");
    std::vector<Vector<double>> vs; DM a=symm("a",5,n); for(int i=0;i<5;i++) vs.push_back(tov(a[i])); for(int i=0;i<5;i++) eqv(vs[i],a[i],"kept"); vs.insert(vs.begin()+2,vs[4]); eqv(vs[2],a[4],"inserted"); eqv(vs[5],a[4],"shifted"); }
