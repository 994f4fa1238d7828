// Structured rectangle meshers: geometry, topology, boundary, selections agree with one another.
#include "mesh.h"
#include "PrePost/Mesher/SquareMesh.h"
#include "PrePost/Mesher/GrandStructure.h"
struct G { double x,y; int nx,ny; };
static G grid(int N){ G g; if(N>=10){ static const int B[6][2]={{7,5},{5,8},{1,9},{9,1},{10,3},{6,6}}; int k=vc_choose("big",0,5); g.nx=B[k][0]; g.ny=B[k][1]; } else { g.nx=vc_choose("nx",1,N); g.ny=vc_choose("ny",1,N); } g.x=vc_real("x",0.1,1000); g.y=vc_real("y",0.1,1000); return g; }
static void lattice(MN&n,const G&g,const std::string&L){ for(int i=0;i<=g.nx;i++) for(int j=0;j<=g.ny;j++){ vc_eq(n[(g.ny+1)*i+j](0),g.x*i/g.nx,1e-7,L+": evenly spaced columns"); vc_eq(n[(g.ny+1)*i+j](1),g.y*j/g.ny,1e-7,L+": evenly spaced rows"); } }
static void square1n(int N){ G g=grid(N); SquareMesh<double> m(g.x,g.y,g.nx,g.ny); MN n=m.GenerateNodes(); ME e=m.GenerateElements(),d=m.GenerateEdges(); vc_reach("square1");
    if(!okmesh(n,e,(g.nx+1)*(g.ny+1),g.nx*g.ny,4,"square")) return; lattice(n,g,"square"); geometry(n,e,g.x*g.y,1e-6,"square"); edges_are(d,boundary(e,"square"),2,"square"); loops(d,1,"square"); }
//@ time=200 jobs=2 | first-order rectangle mesh, every grid 1..4 x 1..4, every extent in [0.1,1000]^2
VC_ENTRY square1(){ square1n(4); }
//@ time=200 jobs=2 | first-order rectangle mesh, six larger grids up to 10 cells a side
VC_ENTRY square1_big(){ square1n(10); }
static void square2n(int N){ G g=grid(N); SquareMesh<double> m(g.x,g.y,g.nx,g.ny); MN n=m.GenerateNodes2(); ME e=m.GenerateElements2(),d=m.GenerateEdges2(),e1=m.GenerateElements(),d1=m.GenerateEdges(); vc_reach("square2");
    if(!okmesh(n,e,(2*g.nx+1)*(2*g.ny+1)-g.nx*g.ny,g.nx*g.ny,8,"square2")) return; lattice(n,g,"square2"); distinct(n,1e-6,"square2"); geometry(n,e,g.x*g.y,1e-6,"square2"); auto b=boundary(e,"square2"); edges_are(d,b,3,"square2"); loops(d,1,"square2");
    for(size_t i=0;i<e.size();i++){ for(int k=0;k<4;k++) vc_true(e[i][k]==e1[i][k],"corner nodes of both orders agree"); for(int k=0;k<4;k++) for(int c=0;c<2;c++) vc_eq(n[e[i][4+k]](c),0.5*(n[e[i][k]](c)+n[e[i][(k+1)%4]](c)),1e-7,"midside node k lies on edge k"); }
    for(size_t i=0;i<d.size();i++){ vc_true(d[i][0]==d1[i][0]&&d[i][1]==d1[i][1],"edges of both orders agree"); if(d[i][2]<0||d[i][2]>=(int)n.size()){ vc_true(false,"edge midside node exists"); continue; } for(int c=0;c<2;c++) vc_eq(n[d[i][2]](c),0.5*(n[d[i][0]](c)+n[d[i][1]](c)),1e-7,"midside node of the edge"); } }
//@ time=200 jobs=2 | second-order rectangle mesh, every grid 1..3 x 1..3, every extent
VC_ENTRY square2(){ square2n(3); }
//@ time=300 jobs=2 | second-order rectangle mesh, six larger grids up to 10 cells a side
VC_ENTRY square2_big(){ square2n(10); }
//@ time=200 jobs=2 | prescribed lists of both orders: every grid 1..3 x 1..2, predicate selecting any one node or all but one
VC_ENTRY fixed(){ G g; g.nx=vc_choose("nx",1,3); g.ny=vc_choose("ny",1,2); g.x=vc_real("x",0.1,1000); g.y=vc_real("y",0.1,1000); int o=vc_choose("order",1,2); SquareMesh<double> m(g.x,g.y,g.nx,g.ny); MN n=o==1?m.GenerateNodes():m.GenerateNodes2(); int k=vc_choose("node",0,(int)n.size()-1);
    if(o==1) fixedlist([&](std::vector<int> u,auto p){ return m.GenerateFixedlist(u,p); },n,"fixed list",k,vc_choose("mode",0,1)); else fixedlist([&](std::vector<int> u,auto p){ return m.GenerateFixedlist2(u,p); },n,"fixed list 2",k,vc_choose("mode",0,1)); }
//@ time=200 jobs=2 | element and edge selection: every grid 1..3 x 1..3, predicate rejecting any one node, or accepting exactly the nodes of any one element
VC_ENTRY selected(){ G g=grid(3); SquareMesh<double> m(g.x,g.y,g.nx,g.ny); MN n=m.GenerateNodes(); ME e=m.GenerateElements(),d=m.GenerateEdges(); int mode=vc_choose("mode",0,1); std::vector<int> in(n.size(),0);
    if(mode==0){ int k=vc_choose("node",0,(int)n.size()-1); for(auto&v:in) v=1; in[k]=0; } else { int k=vc_choose("elem",0,(int)e.size()-1); for(int q:e[k]) in[q]=1; }
    auto pr=[&](Vector<double> x)->bool{ for(size_t i=0;i<n.size();i++) if(near(x,n[i])) return in[i]; return false; };
    std::vector<int> es=m.GenerateElementIdsSelected(pr),ds=m.GenerateEdgeIdsSelected(pr); vc_reach("selected"); std::set<int> ws,wd;
    for(int i=0;i<(int)e.size();i++){ bool a=true; for(int q:e[i]) if(!in[q]) a=false; if(a) ws.insert(i); } for(int i=0;i<(int)d.size();i++) if(in[d[i][0]]&&in[d[i][1]]) wd.insert(i);
    vc_true(std::set<int>(es.begin(),es.end())==ws&&es.size()==ws.size(),"selected elements are those with all nodes selected"); vc_true(std::set<int>(ds.begin(),ds.end())==wd&&ds.size()==wd.size(),"selected edges are those with both nodes selected"); }
static void graded(double lo,double hi,int N=4){ G g=grid(N); double rx=vc_real("rx",lo,hi),ry=vc_real("ry",lo,hi); SquareMesh2<double> m(g.x,g.y,g.nx,g.ny,rx,ry); MN n=m.GenerateNodes(); ME e=m.GenerateElements(),d=m.GenerateEdges(); vc_reach("graded");
    if(!okmesh(n,e,(g.nx+1)*(g.ny+1),g.nx*g.ny,4,"graded")) return; edges_are(d,boundary(e,"graded"),2,"graded"); loops(d,1,"graded");
    for(int i=0;i<=g.nx;i++) for(int j=0;j<=g.ny;j++){ vc_eq(n[(g.ny+1)*i+j](0),n[(g.ny+1)*i](0),1e-7,"graded: columns are vertical"); vc_eq(n[(g.ny+1)*i+j](1),n[j](1),1e-7,"graded: rows are horizontal"); }
    for(int c=0;c<2;c++){ int N=c?g.ny:g.nx; double len=c?g.y:g.x,r=c?ry:rx; auto X=[&](int i){ return n[c?i:(g.ny+1)*i](c); };
        vc_eq(X(0),0,1e-7,"graded: starts at zero"); vc_eq(X(N),len,1e-7,"graded: ends at the extent"); for(int i=0;i<=N;i++) vc_eq(X(i)+X(N-i),len,1e-7,"graded: symmetric"); for(int i=0;i<N;i++) vc_le(1e-4,X(i+1)-X(i),0,"graded: increasing"); for(int i=1;2*(i+1)<=N;i++) vc_eq(X(i+1)-X(i),r*(X(i)-X(i-1)),1e-6,"graded: growth ratio towards the middle"); } }
//@ time=300 jobs=2 | graded mesh, every grid 1..4 x 1..4, every extent, growth ratios in [1.125,2]
VC_ENTRY graded_up(){ graded(1.125,2); }
//@ time=300 jobs=2 | graded mesh, growth ratios in [0.5,0.875]
VC_ENTRY graded_down(){ graded(0.5,0.875); }
//@ time=200 jobs=2 | graded mesh prescribed list, grids 1..4 x 1..3, growth ratios in [1.25,2], predicate selecting any one node or all but one
VC_ENTRY graded_fixed(){ G g; g.nx=vc_choose("nx",1,4); g.ny=vc_choose("ny",1,3); g.x=vc_real("x",0.1,1000); g.y=2; double rx=vc_real("rx",1.25,2),ry=1.5; SquareMesh2<double> m(g.x,g.y,g.nx,g.ny,rx,ry); MN n=m.GenerateNodes(); int k=vc_choose("node",0,(int)n.size()-1); fixedlist([&](std::vector<int> u,auto p){ return m.GenerateFixedlist(u,p); },n,"graded fixed list",k,vc_choose("mode",0,1)); }
//@ time=200 jobs=2 | ground structure, grids 1..2 x 1..2, every extent and every maximal length: each pair of nodes closer than it is connected exactly once
VC_ENTRY ground(){ G g=grid(2); double lm=vc_real("lmax",0.02,2000); GrandStructure2D<double> m(g.x,g.y,g.nx,g.ny,lm); MN n=m.GenerateNodes(); vc_true((int)n.size()==(g.nx+1)*(g.ny+1),"ground nodes"); lattice(n,g,"ground"); ME e=m.GenerateElements(); vc_reach("ground"); std::map<std::pair<int,int>,int> c; for(auto&q:e){ vc_true(q.size()==2&&q[0]!=q[1],"members have two distinct nodes"); c[{std::min(q[0],q[1]),std::max(q[0],q[1])}]++; }
    for(int i=0;i<(int)n.size();i++) for(int j=i+1;j<(int)n.size();j++){ double a=n[i](0)-n[j](0),b=n[i](1)-n[j](1); int k=c.count({i,j})?c[{i,j}]:0; vc_true(k<=1,"no member twice"); double s=lm*lm-(a*a+b*b); if(k) vc_le(0,s,1e-7,"members are not longer than lmax"); else vc_le(s,0,1e-7,"every pair closer than lmax is connected"); } }
//@ time=200 jobs=2 | ground structure prescribed list, grids 1..3 x 1..2
VC_ENTRY ground_fixed(){ G g; g.nx=vc_choose("nx",1,3); g.ny=vc_choose("ny",1,2); g.x=vc_real("x",0.1,1000); g.y=vc_real("y",0.1,1000); GrandStructure2D<double> m(g.x,g.y,g.nx,g.ny,1.0); MN n=m.GenerateNodes(); int k=vc_choose("node",0,(int)n.size()-1); fixedlist([&](std::vector<int> u,auto p){ return m.GenerateFixedlist(u,p); },n,"ground fixed list",k,vc_choose("mode",0,1)); }
