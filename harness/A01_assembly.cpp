// Assembly: the global system is the sum of gathered element contributions with prescribed values moved to the right-hand side.
#define VC_TOL 0
#define VC_LIM 1000000
#include "sparse.h"
#include "FEM/Controller/BoundaryCondition.h"
#include "FEM/Controller/Assembling.h"
#include "FEM/Equation/General.h"
typedef std::vector<std::vector<int>> NG; typedef std::vector<std::vector<std::pair<int,int>>> NE; typedef std::pair<std::pair<int,int>,double> FX;
struct Sys{ int n,m; NG g; std::vector<Vector<double>> u; DM uv; int K; };
static Sys mk(int n,int m,int fixedmask){ Sys s; s.n=n; s.m=m; s.g=NG(n,std::vector<int>(m,0)); s.uv=symm("u",n,m); s.u.assign(n,Vector<double>(m)); for(int i=0;i<n;i++) for(int j=0;j<m;j++){ s.u[i](j)=s.uv[i][j]; if((fixedmask>>(i*m+j))&1) s.g[i][j]=-1; } s.K=Renumbering(s.g); return s; }
static void oracle(const Sys&s,const DM&ke,const DV*fe,const NE&ne,const std::vector<int>&el,DM&K,DV&F,bool doK,bool doBC){
    for(size_t i=0;i<el.size();i++) for(auto&a:ne[i]){ int r=s.g[el[i]][a.first]; if(r<0) continue; if(fe) F[r]+=(*fe)[a.second]; for(size_t j=0;j<el.size();j++) for(auto&b:ne[j]){ int c=s.g[el[j]][b.first]; if(c>=0){ if(doK) K[r][c]+=ke[a.second][b.second]; } else if(doBC) F[r]-=ke[a.second][b.second]*s.uv[el[j]][b.first]; } }
}
//@ time=300 jobs=4 | 3 nodes x 2 dofs, two overlapping 2-node elements with symbolic matrices/vectors; every set of prescribed dofs (64); every overload
VC_ENTRY assemble(){
    Sys s=mk(3,2,vc_choose("fixed",0,63)); if(s.K==0){ vc_reach("none"); } int K=s.K; 
    NE ne{{{0,0},{1,1}},{{0,2},{1,3}}}; std::vector<int> e1{0,1},e2{2,1}; DM k1=symm("k",4,4),k2=symm("l",4,4); DV f1=symv("f",4),f2=symv("h",4); Matrix<double> K1=tom(k1),K2=tom(k2); Vector<double> F1=tov(f1),F2=tov(f2);
    if(K==0) return; vc_reach("assemble");
    { LILCSR<double> G(K,K); std::vector<double> F(K,0.5); Assembling(G,F,s.u,K1,F1,s.g,ne,e1); Assembling(G,F,s.u,K2,F2,s.g,ne,e2); DM O(K,DV(K,0.0)); DV B(K,0.5); oracle(s,k1,&f1,ne,e1,O,B,true,true); oracle(s,k2,&f2,ne,e2,O,B,true,true); eqs(G,O,"K (matrix+vector)"); eqd(F,B,"F (matrix+vector)"); }
    { LILCSR<double> G(K,K); std::vector<double> F(K,0.0); Assembling(G,F,s.u,K1,s.g,ne,e1); Assembling(G,F,s.u,K2,s.g,ne,e2); DM O(K,DV(K,0.0)); DV B(K,0.0); oracle(s,k1,nullptr,ne,e1,O,B,true,true); oracle(s,k2,nullptr,ne,e2,O,B,true,true); eqs(G,O,"K (matrix)"); eqd(F,B,"F (matrix)"); }
    { LILCSR<double> G(K,K); Assembling(G,K1,s.g,ne,e1); Assembling(G,K2,s.g,ne,e2); DM O(K,DV(K,0.0)); DV B(K,0.0); oracle(s,k1,nullptr,ne,e1,O,B,true,false); oracle(s,k2,nullptr,ne,e2,O,B,true,false); eqs(G,O,"K (matrix only)"); }
    { std::vector<double> F(K,0.25); Assembling(F,F1,s.g,ne,e1); Assembling(F,F2,s.g,ne,e2); DM O(K,DV(K,0.0)); DV B(K,0.25); oracle(s,k1,&f1,ne,e1,O,B,false,false); oracle(s,k2,&f2,ne,e2,O,B,false,false); eqd(F,B,"F (vector only)"); }
    { std::vector<double> F(K,0.0); Assembling(F,s.u,K1,s.g,ne,e1); Assembling(F,s.u,K2,s.g,ne,e2); DM O(K,DV(K,0.0)); DV B(K,0.0); oracle(s,k1,nullptr,ne,e1,O,B,false,true); oracle(s,k2,nullptr,ne,e2,O,B,false,true); eqd(F,B,"F (prescribed values)"); }
    { std::vector<double> F(K,0.0); std::vector<FX> q; DV B(K,0.0); for(int i=0;i<3;i++) for(int j=0;j<2;j++){ double v=f1[i]+2*f2[j]; q.push_back({{i,j},v}); q.push_back({{i,j},f2[i]}); if(s.g[i][j]>=0) B[s.g[i][j]]+=v+f2[i]; } Assembling(F,q,s.g); eqd(F,B,"F (nodal loads)"); }
    { for(int i=0;i<3;i++) for(int j=0;j<2;j++) vc_eq(s.u[i](j),s.uv[i][j],TOL,"field unchanged by assembly"); }
}
//@ time=300 jobs=4 | mixed interpolation: 3 nodes x 3 dofs, two field groups (velocity on 2 dofs of all nodes, pressure on 1 dof of a subset); every prescription pattern of 5 dofs
VC_ENTRY mixed(){
    int fm=vc_choose("fixed",0,31); int mask=0; int pos[5]={0,4,5,2,8}; for(int k=0;k<5;k++) if((fm>>k)&1) mask|=1<<pos[k]; Sys s=mk(3,3,mask|(1<<7)|(1<<3)); int K=s.K;
    std::vector<NE> ne{{{{0,0},{1,1}},{{0,2},{1,3}}},{{{2,4}},{{2,5}}}}; std::vector<std::vector<int>> el{{2,0},{0,2}}; DM k=symm("k",6,6); Matrix<double> Ke=tom(k); LILCSR<double> G(K,K); std::vector<double> F(K,0.0); Assembling(G,F,s.u,Ke,s.g,ne,el); vc_reach("mixed");
    std::vector<int> nd(6),df(6); for(size_t a=0;a<ne.size();a++) for(size_t b=0;b<ne[a].size();b++) for(auto&x:ne[a][b]){ nd[x.second]=el[a][b]; df[x.second]=x.first; } DM O(K,DV(K,0.0)); DV B(K,0.0);
    for(int i=0;i<6;i++){ int r=s.g[nd[i]][df[i]]; if(r<0) continue; for(int j=0;j<6;j++){ int c=s.g[nd[j]][df[j]]; if(c>=0) O[r][c]+=k[i][j]; else B[r]-=k[i][j]*s.uv[nd[j]][df[j]]; } } eqs(G,O,"K (mixed)"); eqd(F,B,"F (mixed)");
    Vector<double> ev=ElementVector(s.u,ne,el); for(int i=0;i<6;i++) vc_eq(ev(i),s.uv[nd[i]][df[i]],TOL,"element vector (mixed)");
}
//@ time=200 jobs=2 | tied unknowns: contributions of tied nodes add up in one row; any symbolic element matrix
VC_ENTRY tied(){ NG g(4,std::vector<int>(1,0)); int a=vc_choose("slave",0,3),b=vc_choose("master",0,3); vc_assume(a!=b); int K=SetPeriodic(g,{{b,a}}); DM k=symm("k",3,3); NE ne{{{0,0}},{{0,1}},{{0,2}}}; std::vector<int> e1{0,1,2},e2{3,1,0}; Matrix<double> Ke=tom(k); LILCSR<double> G(K,K); Assembling(G,Ke,g,ne,e1); Assembling(G,Ke,g,ne,e2); vc_reach("tied"); DM O(K,DV(K,0.0)); for(auto&e:{e1,e2}) for(int i=0;i<3;i++) for(int j=0;j<3;j++) O[g[e[i]][0]][g[e[j]][0]]+=k[i][j]; eqs(G,O,"K (tied)"); std::vector<Vector<double>> u(4,Vector<double>(1)); DV r=symv("r",K); Disassembling(u,r,g); vc_eq(u[a](0),u[b](0),TOL,"tied values equal"); for(int i=0;i<4;i++) vc_eq(u[i](0),r[g[i][0]],TOL,"scatter"); }
//@ time=100 | gather then scatter: ElementVector picks the element's dofs, any mapping permutation
VC_ENTRY gather(){ DM uv=symm("u",4,2); std::vector<Vector<double>> u(4,Vector<double>(2)); for(int i=0;i<4;i++) for(int j=0;j<2;j++) u[i](j)=uv[i][j]; int a=vc_choose("a",0,3),b=vc_choose("b",0,3),sw=vc_choose("sw",0,1); NE ne=sw? NE{{{1,0},{0,3}},{{0,1},{1,2}}}:NE{{{0,0},{1,1}},{{0,2},{1,3}}}; std::vector<int> el{a,b}; Vector<double> v=ElementVector(u,ne,el); vc_reach("gather"); vc_true(v.SIZE()==4,"size"); for(int i=0;i<2;i++) for(auto&x:ne[i]) vc_eq(v(x.second),uv[el[i]][x.first],TOL,"element vector"); }
//@ time=300 jobs=4 | 6 nodes x 3 dofs (one component not used by the elements), two 4-node elements sharing an edge, interleaved component order, symbolic matrices/vectors, eight prescription patterns incl. whole nodes; every overload twice (accumulation)
VC_ENTRY assemble_quad(){
    static const int pm[8]={0,1,0x9249,0x3f,0x3ffc0,0x15555,0x2aaaa,0x1c71c}; Sys s=mk(6,3,pm[vc_choose("fixed",0,7)]); int K=s.K; vc_reach("quad"); NE ne{{{2,0},{0,1}},{{0,4},{2,5}},{{0,2},{2,3}},{{2,7},{0,6}}}; std::vector<int> e1{0,1,4,3},e2{5,4,1,2}; DM k1=symm("k",8,8),k2=symm("l",8,8); DV f1=symv("f",8),f2=symv("h",8); Matrix<double> K1=tom(k1),K2=tom(k2); Vector<double> F1=tov(f1),F2=tov(f2);
    { LILCSR<double> G(K,K); std::vector<double> F(K,0.0); DM O(K,DV(K,0.0)); DV B(K,0.0); for(int t=0;t<2;t++){ Assembling(G,F,s.u,K1,F1,s.g,ne,e1); Assembling(G,F,s.u,K2,F2,s.g,ne,e2); oracle(s,k1,&f1,ne,e1,O,B,true,true); oracle(s,k2,&f2,ne,e2,O,B,true,true); } eqs(G,O,"K (matrix+vector)"); eqd(F,B,"F (matrix+vector)"); }
    { LILCSR<double> G(K,K); std::vector<double> F(K,0.0); DM O(K,DV(K,0.0)); DV B(K,0.0); Assembling(G,F,s.u,K1,s.g,ne,e1); Assembling(G,F,s.u,K2,s.g,ne,e2); oracle(s,k1,nullptr,ne,e1,O,B,true,true); oracle(s,k2,nullptr,ne,e2,O,B,true,true); eqs(G,O,"K (matrix)"); eqd(F,B,"F (matrix)"); }
    { LILCSR<double> G(K,K); DM O(K,DV(K,0.0)); DV B(K,0.0); Assembling(G,K1,s.g,ne,e1); Assembling(G,K2,s.g,ne,e2); oracle(s,k1,nullptr,ne,e1,O,B,true,false); oracle(s,k2,nullptr,ne,e2,O,B,true,false); eqs(G,O,"K (matrix only)"); }
    { std::vector<double> F(K,0.0); DM O; DV B(K,0.0); Assembling(F,F1,s.g,ne,e1); Assembling(F,F2,s.g,ne,e2); oracle(s,k1,&f1,ne,e1,O,B,false,false); oracle(s,k2,&f2,ne,e2,O,B,false,false); eqd(F,B,"F (vector only)"); }
    { std::vector<double> F(K,0.0); DM O; DV B(K,0.0); Assembling(F,s.u,K1,s.g,ne,e1); Assembling(F,s.u,K2,s.g,ne,e2); oracle(s,k1,nullptr,ne,e1,O,B,false,true); oracle(s,k2,nullptr,ne,e2,O,B,false,true); eqd(F,B,"F (prescribed values)"); }
}
//@ time=300 jobs=2 | element matrices of any magnitude: fixed irregular 4x4 matrix and vector scaled by any factor in [1e-15,1e15] (prescribed values also scaled), six prescription patterns, every overload
VC_ENTRY assemble_scale(){
    static const int pm[6]={0,1,6,0x21,0x18,0x2a}; int fm=pm[vc_choose("fixed",0,5)]; double sc=vc_real("s",1e-15,1e15),su=vc_real("t",1e-15,1e15); Sys s=mk(3,2,fm); for(int i=0;i<3;i++) for(int j=0;j<2;j++){ s.uv[i][j]=su*(0.5+i-2*j); s.u[i](j)=s.uv[i][j]; } int K=s.K; NE ne{{{0,0},{1,1}},{{0,2},{1,3}}}; std::vector<int> e1{0,1},e2{2,1}; DM k(4,DV(4)); DV f(4); for(int i=0;i<4;i++){ f[i]=sc*(i-1.25); for(int j=0;j<4;j++) k[i][j]=sc*(((i*3+j*5+i*j)%7)-2.75); } Matrix<double> Ke=tom(k); Vector<double> Fe=tov(f); vc_reach("ascale");
    LILCSR<double> G(K,K),G2(K,K),G3(K,K); std::vector<double> F(K,0.0),F2(K,0.0),F3(K,0.0),F4(K,0.0); DM O(K,DV(K,0.0)),O2=O; DV B(K,0.0),B2=B,B3=B,B4=B; for(auto&e:{e1,e2}){ Assembling(G,F,s.u,Ke,Fe,s.g,ne,e); Assembling(G2,F2,s.u,Ke,s.g,ne,e); Assembling(G3,Ke,s.g,ne,e); Assembling(F3,Fe,s.g,ne,e); Assembling(F4,s.u,Ke,s.g,ne,e); oracle(s,k,&f,ne,e,O,B,true,true); DM D; oracle(s,k,nullptr,ne,e,D,B2,false,true); oracle(s,k,&f,ne,e,D,B3,false,false); } eqs(G,O,"K (matrix+vector)"); eqs(G2,O,"K (matrix)"); eqs(G3,O,"K (matrix only)"); eqd(F,B,"F (matrix+vector)"); eqd(F2,B2,"F (matrix)"); eqd(F3,B3,"F (vector only)"); eqd(F4,B2,"F (prescribed values)");
}
//@ time=300 jobs=2 | one 10-node element with 3 dofs per node (30x30), symbolic vector and one symbolic matrix row and column, three prescription patterns, node numbers scattered; every overload
VC_ENTRY assemble_large(){
    int w=vc_choose("fixed",0,2); const int n=12; NG g(n,std::vector<int>(3,0)); Sys s; s.n=n; s.m=3; s.uv=DM(n,DV(3)); for(int i=0;i<n;i++) for(int j=0;j<3;j++){ s.uv[i][j]=0.25*((i*3+j*7)%11)-1; if(w==1&&(i*3+j)%5==0) g[i][j]=-1; if(w==2&&i%3==0) g[i][j]=-1; } s.u.assign(n,Vector<double>(3)); for(int i=0;i<n;i++) for(int j=0;j<3;j++) s.u[i](j)=s.uv[i][j]; s.g=g; s.K=Renumbering(s.g); int K=s.K; std::vector<int> e; NE ne(10); for(int i=0;i<10;i++){ e.push_back((i*5+2)%12); for(int d=0;d<3;d++) ne[i].push_back({(d+i)%3,3*i+d}); } DM k(30,DV(30)); DV f=symv("f",30),r=symv("r",30),c=symv("c",30); for(int i=0;i<30;i++) for(int j=0;j<30;j++) k[i][j]= i==29?r[j]: j==29?c[i]: ((i*3+j*5+i*j)%17)-7.75; Matrix<double> Ke=tom(k); Vector<double> Fe=tov(f); vc_reach("alarge");
    LILCSR<double> G(K,K),G2(K,K),G3(K,K); std::vector<double> F(K,0.0),F2(K,0.0),F3(K,0.0),F4(K,0.0); DM O(K,DV(K,0.0)),D; DV B(K,0.0),B2=B,B3=B; Assembling(G,F,s.u,Ke,Fe,s.g,ne,e); Assembling(G2,F2,s.u,Ke,s.g,ne,e); Assembling(G3,Ke,s.g,ne,e); Assembling(F3,Fe,s.g,ne,e); Assembling(F4,s.u,Ke,s.g,ne,e); oracle(s,k,&f,ne,e,O,B,true,true); oracle(s,k,nullptr,ne,e,D,B2,false,true); oracle(s,k,&f,ne,e,D,B3,false,false); eqs(G,O,"K (matrix+vector)"); eqs(G2,O,"K (matrix)"); eqs(G3,O,"K (matrix only)"); eqd(F,B,"F (matrix+vector)"); eqd(F2,B2,"F (matrix)"); eqd(F3,B3,"F (vector only)"); eqd(F4,B2,"F (prescribed values)");
    Vector<double> ev=ElementVector(s.u,ne,e); for(int i=0;i<10;i++) for(auto&x:ne[i]) vc_eq(ev(x.second),s.uv[e[i]][x.first],TOL,"element vector");
}
