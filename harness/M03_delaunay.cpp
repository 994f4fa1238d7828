// Delaunay mesher: a valid triangulation of the polygon for every position of the moving vertex.
#include "mesh.h"
#include <set>
#include <map>
#include "PrePost/Mesher/Delaunay.h"
typedef std::vector<std::vector<int>> LI;
static double parea(const DM&p,const std::vector<int>&c){ double a=0; int n=c.size(); for(int i=0;i<n;i++){ auto&s=p[c[i]];auto&t=p[c[(i+1)%n]]; a+=s[0]*t[1]-s[1]*t[0]; } return 0.5*a; }
static void tri(const DM&p,const LI&outer,const LI&inner,double h,const char*what){
    std::vector<Vector<double>> x; for(auto&v:p) x.push_back(tov(v)); Delaunay<double> d(x,outer,inner,h); auto N=d.GenerateNodes(); auto E=d.GenerateElements(); auto B=d.GenerateEdges(); vc_reach(what);
    int n=N.size(); std::map<std::pair<int,int>,int> m; std::set<int> used; double s=0; for(auto&v:N) if(v.SIZE()!=2){ vc_true(false,"nodes have two coordinates"); return; }
    for(auto&e:E){ if(e.size()!=3){ vc_true(false,"elements are triangles"); return; } for(int i:e) if(i<0||i>=n){ vc_true(false,"element refers to existing nodes"); return; } 
        double A=0.5*((N[e[1]](0)-N[e[0]](0))*(N[e[2]](1)-N[e[0]](1))-(N[e[1]](1)-N[e[0]](1))*(N[e[2]](0)-N[e[0]](0))); vc_le(1e-9,A,0,"triangle is counter-clockwise with positive area"); s+=A; for(int i=0;i<3;i++){ m[{e[i],e[(i+1)%3]}]++; used.insert(e[i]); } }
    double area=0; for(auto&c:outer) area-=parea(p,c); for(auto&c:inner) area-=parea(p,c); vc_eq(s,area,1e-7,"triangles cover the region exactly");
    std::set<std::pair<int,int>> bs,tb; bool once=true; for(auto&k:m){ once=once&&k.second==1; if(!m.count({k.first.second,k.first.first})) tb.insert(k.first); } vc_true(once,"no edge belongs to two triangles on the same side"); for(auto&b:B) if(b.size()==2) vc_true(bs.insert({b[0],b[1]}).second,"boundary edge listed once"); vc_true(bs==tb,"GenerateEdges lists exactly the boundary of the mesh"); for(auto&b:B) if(b.size()==2&&b[0]>=0&&b[0]<n&&b[1]>=0&&b[1]<n){ double u=N[b[1]](0)-N[b[0]](0),v=N[b[1]](1)-N[b[0]](1); vc_le(u*u+v*v,h*h,1e-9,"boundary edges no longer than the requested size"); } vc_true((int)used.size()==n,"every node belongs to a triangle");
    // given vertices survive, in order
    std::vector<int> keep; for(size_t i=0;i<p.size();i++){ bool in=false; for(auto&c:outer) for(int k:c) in=in||k==(int)i; for(auto&c:inner) for(int k:c) in=in||k==(int)i; if(in) keep.push_back(i); }
    if((int)keep.size()>n){ vc_true(false,"vertices of the boundary kept"); return; } for(size_t i=0;i<keep.size();i++) for(int c=0;c<2;c++) vc_eq(N[i](c),p[keep[i]][c],TOL,"vertices of the boundary kept in order");
    auto F=d.GenerateFixedlist({0,2},[&](Vector<double> q){ return q(0)<0.5; }); size_t k=0; for(int i=0;i<n;i++) if(N[i](0)<0.5) for(int c:{0,2}){ vc_true(k<F.size()&&F[k].first==std::make_pair(i,c),"fixed list holds the nodes that satisfy the predicate"); if(k<F.size()) vc_eq(F[k].second,0,0,"fixed value"); k++; } vc_true(k==F.size(),"fixed list holds no other node");
}
// positions of the moving vertex closer than w to c are left out (there a vertex is collinear with two others up to the mesher's own tolerance)
static void apart(double a,double c,double w=0.001){ vc_assume(a<c-w||a>c+w); }
//@ time=200 jobs=4 | triangle, one vertex moving along a line, refined to 2.0
VC_ENTRY triangle(){ double a=vc_real("a",-0.5,0.5); tri({{-1,-1},{a,1},{1.25,-0.75}},{{0,1,2}},{},2.0,"triangle"); }
//@ time=200 jobs=4 | triangle, one vertex anywhere in a small box, coarsest mesh
VC_ENTRY triangle2(){ double a=vc_real("a",0.0625,0.125),b=vc_real("b",0.75,0.875); tri({{-1,-1},{a,b},{1.25,-0.75}},{{0,1,2}},{},3.0,"triangle2"); }
//@ time=200 jobs=4 | quadrilateral, one vertex moving along a line through convex and concave positions, refined to 2.25
VC_ENTRY quad(){ double a=vc_real("a",-0.25,1.1875); apart(a,-0.0258160641); tri({{0,0},{0,2},{1+0.5*a,1+a},{2.5,0}},{{0,1,2,3}},{},2.25,"quad"); }
static void arrow_(int k){ double a=vc_real("a",0.3125,0.375); std::vector<int> c; for(int i=0;i<4;i++) c.push_back((i+k)%4); tri({{-1.0625,-0.9375},{0.125,1.5},{1.1875,-1.0625},{a,-0.375}},{c},{},1.75,"arrow"); }
//@ time=200 jobs=4 | concave quadrilateral, the reflex vertex moving, outlines that reach the reflex vertex last or next to last
VC_ENTRY arrow(){ arrow_(vc_choose("first",0,1)); }
//@ time=100 jobs=2 | concave quadrilateral, outlines that reach the reflex vertex first or second (known finding: an outline edge is not recovered)
VC_ENTRY arrow_late(){ arrow_(vc_choose("first",2,3)); }
//@ time=300 jobs=4 | L-shaped outline, re-entrant corner moving, with an unused point before the outline
VC_ENTRY lshape(){ double a=vc_real("a",0.75,0.8125); tri({{5,5},{0.0625,0},{0,1.9375},{0.9375,2},{1,a},{2,0.75},{2.0625,0.0625}},{{1,2,3,4,5,6}},{},1.5,"lshape"); }
//@ time=300 jobs=4 | outline with a hole, a vertex of the hole moving
VC_ENTRY hole(){ double a=vc_real("a",0.4375,0.5); tri({{-2,-1.875},{-2.0625,2},{1.9375,2.125},{2.125,-2},{0.0625,-0.5625},{a,0.0625},{0,0.5},{-0.625,0.125}},{{0,1,2,3}},{{4,5,6,7}},2.5,"hole"); }
// vertices in the directions in which the enclosing start triangle is closest (30, 150 and 270 degrees), one more vertex anywhere on a radius
//@ time=300 jobs=4 | outlines with vertices 30, 150 and 270 degrees around the origin, all at the greatest distance, and a fourth vertex moving
VC_ENTRY tangent(){ double a=vc_real("a",0.625,0.9375); double c=cos(M_PI/6),s=sin(M_PI/6); DM p={{c,s},{0,-1},{-c,s},{0,a}}; std::vector<int> o; int k=vc_choose("first",0,3); for(int i=0;i<4;i++) o.push_back((i+k)%4); tri(p,{o},{},2.5,"tangent"); }
//@ time=300 jobs=4 | regular hexagon with one vertex moving inwards
VC_ENTRY hexagon(){ double a=vc_real("a",1.75,1.9375); DM p; std::vector<int> o; for(int i=0;i<6;i++){ double t=M_PI/6-M_PI/3*i,r=i==4?a:2.0; p.push_back({r*cos(t),r*sin(t)}); o.push_back(i); } tri(p,{o},{},5.0,"hexagon"); }
