// Annulus meshers (circular, rectangular frame, rectangle with a rectangular or circular hole).
#include "mesh.h"
#include "PrePost/Mesher/AnnulusMesh.h"
#include "PrePost/Mesher/SquareAnnulusMesh.h"
#include "PrePost/Mesher/SquareCircleAnnulusMesh.h"
static const double PI=3.14159265358979323846;
//@ time=200 jobs=2 | circular annulus, 1..4 layers x 3..8 sectors, every inner radius in [0.1,1] and outer radius in [1.5,100]
VC_ENTRY annulus(){ int nr=vc_choose("nr",1,4),nt=vc_choose("nt",3,8); double r0=vc_real("r0",0.1,1),r1=vc_real("r1",1.5,100); AnnulusMesh<double> m(r0,r1,nr,nt); MN n=m.GenerateNodes(); ME e=m.GenerateElements(),d=m.GenerateEdges(); vc_reach("annulus");
    if(!okmesh(n,e,(nr+1)*nt,nr*nt,4,"annulus")) return; for(int i=0;i<=nr;i++) for(int j=0;j<nt;j++){ double r=r0+(r1-r0)*i/nr; vc_eq(n[nt*i+j](0),r*std::cos(2*PI*j/nt),1e-7,"annulus x"); vc_eq(n[nt*i+j](1),r*std::sin(2*PI*j/nt),1e-7,"annulus y"); }
    geometry(n,e,0.5*nt*std::sin(2*PI/nt)*(r1*r1-r0*r0),1e-3,"annulus"); edges_are(d,boundary(e,"annulus"),2,"annulus"); loops(d,2,"annulus"); }
//@ time=200 jobs=2 | circular annulus prescribed list: predicate selecting any one node or all but one
VC_ENTRY annulus_fixed(){ int nr=vc_choose("nr",1,2),nt=vc_choose("nt",3,4); double r0=vc_real("r0",0.5,1),r1=vc_real("r1",1.5,3); AnnulusMesh<double> m(r0,r1,nr,nt); MN n=m.GenerateNodes(); int k=vc_choose("node",0,(int)n.size()-1); fixedlist([&](std::vector<int> u,auto p){ return m.GenerateFixedlist(u,p); },n,"annulus fixed list",k,vc_choose("mode",0,1)); }
static DV rect(double a,double b,int nx,int ny,int k){ if(k<ny) return {0.5*a,b*(double(k)/ny-0.5)}; k-=ny; if(k<nx) return {a*(0.5-double(k)/nx),0.5*b}; k-=nx; if(k<ny) return {-0.5*a,b*(0.5-double(k)/ny)}; k-=ny; return {a*(double(k)/nx-0.5),-0.5*b}; }
//@ time=200 jobs=2 | rectangular frame, 1..4 x 1..4 divisions, 1..3 layers, every outer a,b in [2,3] and inner c,d in [0.5,1.5]
VC_ENTRY frame(){ int nx=vc_choose("nx",1,4),ny=vc_choose("ny",1,4),nt=vc_choose("nt",1,3),q=2*(nx+ny); double a=vc_real("a",2,3),b=vc_real("b",2,3),c=vc_real("c",0.5,1.5),d=vc_real("d",0.5,1.5); SquareAnnulusMesh<double> m(a,b,c,d,nx,ny,nt); MN n=m.GenerateNodes(); ME e=m.GenerateElements(),g=m.GenerateEdges(); vc_reach("frame");
    if(!okmesh(n,e,q*(nt+1),q*nt,4,"frame")) return; for(int i=0;i<=nt;i++) for(int k=0;k<q;k++){ DV in=rect(c,d,nx,ny,k),out=rect(a,b,nx,ny,k); double t=double(i)/nt; for(int z=0;z<2;z++) vc_eq(n[q*i+k](z),in[z]+t*(out[z]-in[z]),1e-7,"frame node between the inner and the outer rectangle"); }
    geometry(n,e,a*b-c*d,1e-3,"frame"); edges_are(g,boundary(e,"frame"),2,"frame"); loops(g,2,"frame"); }
//@ time=200 jobs=2 | rectangular frame prescribed list: predicate selecting any one node or all but one
VC_ENTRY frame_fixed(){ int nx=vc_choose("nx",1,2),ny=vc_choose("ny",1,2),nt=vc_choose("nt",1,2); double a=vc_real("a",2,3),b=vc_real("b",2,3),c=vc_real("c",0.5,1.5),d=vc_real("d",0.5,1.5); SquareAnnulusMesh<double> m(a,b,c,d,nx,ny,nt); MN n=m.GenerateNodes(); int k=vc_choose("node",0,(int)n.size()-1); fixedlist([&](std::vector<int> u,auto p){ return m.GenerateFixedlist(u,p); },n,"frame fixed list",k,vc_choose("mode",0,1)); }
struct H { int nx,ny,nv,nw; }; static H hole(int mx){ H h; int l=vc_choose("lx",1,mx),k=vc_choose("ly",1,mx); h.nv=vc_choose("nv",1,mx==3?4:3); h.nw=vc_choose("nw",1,mx==3?4:3); h.nx=h.nv+2*l; h.ny=h.nw+2*k; return h; }
//@ time=200 jobs=2 | grid with a central hole: hole 1..4 x 1..4 cells, margin 1..3 x 1..3 cells, every extent
VC_ENTRY holed(){ H h=hole(3); double a=vc_real("a",1,100),b=vc_real("b",1,100); SquareAnnulusMesh2<double> m(a,b,h.nx,h.ny,h.nv,h.nw); MN n=m.GenerateNodes(); ME e=m.GenerateElements(),g=m.GenerateEdges(); vc_reach("holed");
    if(!okmesh(n,e,(h.nx+1)*(h.ny+1)-(h.nv-1)*(h.nw-1),h.nx*h.ny-h.nv*h.nw,4,"holed")) return; int l=(h.nx-h.nv)/2,k=(h.ny-h.nw)/2,id=0; for(int i=0;i<=h.nx;i++) for(int j=0;j<=h.ny;j++) if(!(i>l&&i<l+h.nv&&j>k&&j<k+h.nw)){ vc_eq(n[id](0),a*i/h.nx,1e-7,"holed x"); vc_eq(n[id](1),b*j/h.ny,1e-7,"holed y"); id++; }
    geometry(n,e,a*b*(1-double(h.nv*h.nw)/(h.nx*h.ny)),1e-3,"holed"); auto bd=boundary(e,"holed"); vc_true((int)bd.size()==2*(h.nx+h.ny+h.nv+h.nw),"holed: boundary length"); std::set<std::pair<int,int>> s; for(auto&x:g) if(x.size()==2) s.insert({x[0],x[1]}); vc_true((int)s.size()==2*(h.nx+h.ny)&&g.size()==s.size(),"holed: outer edges once each"); for(auto&x:s) vc_true(bd.count(x),"holed: edges are boundary edges in the direction of the element");
    loops(g,1,"holed"); double ar=0; for(auto&x:s) if(x.first>=0&&x.first<(int)n.size()&&x.second>=0&&x.second<(int)n.size()) ar+=0.5*(n[x.first](0)*n[x.second](1)-n[x.second](0)*n[x.first](1)); vc_eq(ar,a*b,1e-6,"holed: edges enclose the whole rectangle"); }
//@ time=200 jobs=2 | grid with a hole, prescribed list: predicate selecting any one node or all but one
VC_ENTRY holed_fixed(){ H h=hole(1); double a=vc_real("a",1,4),b=vc_real("b",1,4); SquareAnnulusMesh2<double> m(a,b,h.nx,h.ny,h.nv,h.nw); MN n=m.GenerateNodes(); int k=vc_choose("node",0,(int)n.size()-1); fixedlist([&](std::vector<int> u,auto p){ return m.GenerateFixedlist(u,p); },n,"holed fixed list",k,vc_choose("mode",0,1)); }
//@ time=200 jobs=2 | rectangle with a circular hole, 1..4 x 1..4 divisions, 1..3 layers, grading power 1 to 3, every a,b in [2,2.5], r in [0.25,0.75]
VC_ENTRY circle(){ int nx=vc_choose("nx",1,4),ny=vc_choose("ny",1,4),nr=vc_choose("nr",1,3),p=vc_choose("p",1,3),q=2*(nx+ny); double a=vc_real("a",2,2.5),b=vc_real("b",2,2.5),r=vc_real("r",0.25,0.75); SquareCircleAnnulusMesh<double> m(a,b,r,p,nx,ny,nr); MN n=m.GenerateNodes(); ME e=m.GenerateElements(),g=m.GenerateEdges(); vc_reach("circle");
    if(!okmesh(n,e,q*(nr+1),q*nr,4,"circle")) return; for(int i=0;i<=nr;i++) for(int k=0;k<q;k++){ double th=2*PI*(k-0.5*ny)/q; DV in{r*std::cos(th),r*std::sin(th)},out=rect(a,b,nx,ny,k); double t=std::pow(double(i)/nr,p); for(int z=0;z<2;z++) vc_eq(n[q*i+k](z),in[z]+t*(out[z]-in[z]),1e-7,"circle node between the circle and the rectangle"); }
    geometry(n,e,a*b-0.5*q*std::sin(2*PI/q)*r*r,nx==ny?1e-3:0,"circle"); edges_are(g,boundary(e,"circle"),2,"circle"); loops(g,2,"circle"); }
//@ time=200 jobs=2 | rectangle with a circular hole, prescribed list: predicate selecting any one node or all but one
VC_ENTRY circle_fixed(){ int nx=vc_choose("nx",1,2),ny=vc_choose("ny",1,2),nr=vc_choose("nr",1,2); double a=vc_real("a",2,2.5),b=vc_real("b",2,2.5),r=vc_real("r",0.25,0.75); SquareCircleAnnulusMesh<double> m(a,b,r,2,nx,ny,nr); MN n=m.GenerateNodes(); int k=vc_choose("node",0,(int)n.size()-1); fixedlist([&](std::vector<int> u,auto p){ return m.GenerateFixedlist(u,p); },n,"circle fixed list",k,vc_choose("mode",0,1)); }
