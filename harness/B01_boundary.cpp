// Degree-of-freedom numbering: after any set of fixed / tied unknowns, free unknowns get exactly 0..n-1, each once, in node order; fixed ones none; tied ones share.
#define VC_TOL 0
#define VC_LIM 1000000
#include "common.h"
#include "FEM/Controller/BoundaryCondition.h"
#include "FEM/Controller/Assembling.h"
typedef std::vector<std::vector<int>> NG; typedef std::pair<std::pair<int,int>,double> FX;
//@ time=300 jobs=4 | 3 nodes x 2 dofs: any 3 fixings (any node, any dof, repeats allowed), any values
VC_ENTRY dirichlet(){
    const int n=3,m=2; NG g(n,std::vector<int>(m,0)),g2=g; std::vector<Vector<double>> u(n,Vector<double>(m)); DM u0=symm("u",n,m); for(int i=0;i<n;i++) for(int j=0;j<m;j++) u[i](j)=u0[i][j];
    std::vector<FX> f; DM e=u0; std::vector<std::vector<int>> fixed(n,std::vector<int>(m,0));
    for(int k=0;k<3;k++){ int p=vc_choose(vc_nm("p",k),0,n*m-1); double v=vc_real(vc_nm("v",k),-2,2); f.push_back({{p/m,p%m},v}); e[p/m][p%m]=v; fixed[p/m][p%m]=1; }
    SetDirichlet(u,g,f); SetDirichlet(g2,f); int K=Renumbering(g),K2=Renumbering(g2); vc_reach("dirichlet"); int c=0;
    for(int i=0;i<n;i++) for(int j=0;j<m;j++){ vc_eq(u[i](j),e[i][j],TOL,"prescribed value stored, others untouched"); int want=fixed[i][j]?-1:c++; vc_true(g[i][j]==want,"numbering"); vc_true(g2[i][j]==want,"numbering (no field)"); }
    vc_true(K==c&&K2==c,"number of unknowns");
    DV r=symv("x",c); Disassembling(u,r,g); for(int i=0;i<n;i++) for(int j=0;j<m;j++) vc_eq(u[i](j),fixed[i][j]?e[i][j]:r[g[i][j]],TOL,"result scattered to free unknowns only");
    NG h=g; int K3=Renumbering(h); vc_true(K3==K&&h==g,"renumbering is idempotent"); RemoveBoundaryConditions(g); for(auto&a:g) for(int x:a) vc_true(x!=-1,"all conditions removed"); vc_true(Renumbering(g)==n*m,"all unknowns free again");
}
//@ time=200 jobs=2 | uneven dof counts per node (1..3), any 2 fixings
VC_ENTRY uneven(){
    int a=vc_choose("a",1,3),b=vc_choose("b",1,3); std::vector<int> sz{a,b,2}; NG g; std::vector<Vector<double>> u; for(int s:sz){ g.push_back(std::vector<int>(s,0)); u.push_back(Vector<double>(s)); } std::vector<FX> f; int tot=a+b+2; std::vector<int> fx(tot,0);
    for(int k=0;k<2;k++){ int p=vc_choose(vc_nm("p",k),0,tot-1); fx[p]=1; int i=0,q=p; while(q>=sz[i]) q-=sz[i++]; f.push_back({{i,q},1.0+k}); } SetDirichlet(u,g,f); int K=Renumbering(g); vc_reach("uneven"); int c=0,t=0; for(size_t i=0;i<g.size();i++) for(size_t j=0;j<g[i].size();j++){ vc_true(g[i][j]==(fx[t]?-1:c),"numbering"); if(!fx[t]) c++; t++; } vc_true(K==c,"number of unknowns");
}
//@ time=300 jobs=4 | 5 nodes x 2 dofs: any 2 slave->master ties (masters not slaves), any one fixed dof of a master
VC_ENTRY periodic(){
    const int n=5,m=2; int s1=vc_choose("s1",0,n-1),m1=vc_choose("m1",0,n-1),s2=vc_choose("s2",0,n-1),m2=vc_choose("m2",0,n-1),p=vc_choose("p",0,n*m-1); vc_assume(s1!=m1); vc_assume(s2!=m2); vc_assume(s1!=s2); vc_assume(m1!=s2); vc_assume(m2!=s1); vc_assume(p/m!=s1); vc_assume(p/m!=s2);
    NG g(n,std::vector<int>(m,0)); std::vector<FX> f{{{p/m,p%m},0.0}}; SetDirichlet<double>(g,f); int K=SetPeriodic(g,{{m1,s1},{m2,s2}}); vc_reach("periodic"); int c=0;
    for(int i=0;i<n;i++) if(i!=s1&&i!=s2) for(int j=0;j<m;j++){ int want=(i*m+j==p)?-1:c++; vc_true(g[i][j]==want,"independent unknowns numbered once in order"); }
    vc_true(K==c,"number of independent unknowns"); for(int j=0;j<m;j++){ vc_true(g[s1][j]==g[m1][j],"slave shares master's unknown"); vc_true(g[s2][j]==g[m2][j],"slave shares master's unknown"); }
}
//@ time=300 jobs=4 | periodic 3x3 grid (9 nodes x 3 dofs): five ties with one master of three slaves, listed in six orders, any one or two fixed dofs of nodes that are not slaves, symbolic solution scattered
VC_ENTRY periodic_grid(){
    const int n=9,m=3; std::vector<std::pair<int,int>> all{{0,2},{0,6},{0,8},{1,7},{3,5}}; static const int ord[6][5]={{0,1,2,3,4},{4,3,2,1,0},{2,0,4,1,3},{3,1,0,4,2},{1,4,3,2,0},{2,3,1,0,4}}; int o=vc_choose("order",0,5); std::vector<std::pair<int,int>> ties; for(int k=0;k<5;k++) ties.push_back(all[ord[o][k]]); static const int mn[4]={0,1,3,4}; int p=vc_choose("p",0,11),q=vc_choose("q",0,2)*5%12; int pn=mn[p/m],qn=mn[q/m]; std::vector<int> master(n); for(int i=0;i<n;i++) master[i]=i; for(auto&t:all) master[t.second]=t.first;
    NG g(n,std::vector<int>(m,0)); std::vector<Vector<double>> u(n,Vector<double>(m)); double v=vc_real("v",-1000,1000),w=vc_real("w",-1000,1000); std::vector<FX> f{{{pn,p%m},v},{{qn,q%m},p==q?v:w}}; SetDirichlet(u,g,f); int K=SetPeriodic(g,ties); vc_reach("grid"); int c=0; auto fix=[&](int i,int j){ return (i==pn&&j==p%m)||(i==qn&&j==q%m); };
    for(int i=0;i<n;i++) if(master[i]==i) for(int j=0;j<m;j++){ int want=fix(i,j)?-1:c++; vc_true(g[i][j]==want,"independent unknowns numbered once in order"); } vc_true(K==c,"number of independent unknowns"); for(int i=0;i<n;i++) for(int j=0;j<m;j++) vc_true(g[i][j]==g[master[i]][j],"slave shares master's unknown");
    DV r=symv("r",c); Disassembling(u,r,g); for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(g[i][j]>=0&&g[i][j]<c) vc_eq(u[i](j),r[g[i][j]],TOL,"scatter of the periodic solution"); for(int j=0;j<m;j++){ if(fix(pn,j)&&j==p%m) vc_eq(u[pn](j),v,TOL,"prescribed value kept"); }
}
//@ time=200 jobs=2 | nodes with 6 dofs (shells) and 1..2 dofs mixed, 8 nodes: any two fixings of any node/dof, three ties between equal nodes, prescribed values and solution of any magnitude down to 1e-15
VC_ENTRY sixdof(){
    const int n=8; static const int sz[8]={6,1,6,2,6,6,2,1}; NG g; std::vector<Vector<double>> u; int tot=0; for(int s:sz){ g.push_back(std::vector<int>(s,0)); u.push_back(Vector<double>(s)); tot+=s; } std::vector<std::pair<int,int>> ties{{0,4},{0,5},{3,6}}; std::vector<int> fx(tot,0); std::vector<FX> f; double v=vc_real("v",-1000,1000)*1e-15; static const int free_[4]={0,1,2,3}; int off[9]={0}; for(int i=0;i<n;i++) off[i+1]=off[i]+sz[i]; int free_n=off[4];
    for(int k=0;k<2;k++){ int p=vc_choose(vc_nm("p",k),0,free_n-1); int i=0; while(p>=off[i+1]) i++; fx[p]=1; f.push_back({{i,p-off[i]},v}); } (void)free_; SetDirichlet(u,g,f); { NG h=g; int KR=Renumbering(h),q=0; for(int i=0;i<n;i++) for(int j=0;j<sz[i];j++) vc_true(h[i][j]==(fx[off[i]+j]?-1:q++),"numbering without ties"); vc_true(KR==q,"number of unknowns without ties"); } int K=SetPeriodic(g,ties); vc_reach("sixdof"); int c=0; for(int i=0;i<n;i++){ if(i==4||i==5||i==6) continue; for(int j=0;j<sz[i];j++){ vc_true(g[i][j]==(fx[off[i]+j]?-1:c),"numbering"); if(!fx[off[i]+j]) c++; } } vc_true(K==c,"number of unknowns"); for(auto&t:ties) for(int j=0;j<sz[t.first];j++) vc_true(g[t.second][j]==g[t.first][j],"slave shares master's unknown");
    DV r=symv("r",c,-1000000,1000000); for(auto&x:r) x*=1e-18; Disassembling(u,r,g); for(int i=0;i<4;i++) for(int j=0;j<sz[i];j++) if(fx[off[i]+j]) vc_eq(u[i](j),v,TOL,"prescribed value kept"); else if(g[i][j]>=0&&g[i][j]<c) vc_eq(u[i](j),r[g[i][j]],TOL,"scatter"); for(auto&t:ties) for(int j=0;j<sz[t.first];j++) if(g[t.second][j]>=0&&g[t.second][j]<c) vc_eq(u[t.second](j),r[g[t.first][j]],TOL,"tied values");
    RemoveBoundaryConditions(g); for(auto&a:g) for(int x:a) vc_true(x!=-1,"all conditions removed"); vc_true(Renumbering(g)==tot,"all unknowns free again");
}
