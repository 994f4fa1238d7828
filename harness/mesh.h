// Mesh obligations shared by the structured meshers.
#pragma once
#include "common.h"
#include <set>
#include <array>
typedef std::vector<Vector<double>> MN; typedef std::vector<std::vector<int>> ME; typedef std::vector<std::pair<std::pair<int,int>,double>> FL;
static bool okmesh(MN&n,const ME&e,size_t nn,size_t ne,size_t per,const std::string&L){
    vc_true(n.size()==nn,L+": number of nodes"); vc_true(e.size()==ne,L+": number of elements"); bool ok=n.size()==nn&&e.size()==ne;
    for(auto&v:n) if(v.SIZE()!=2) ok=false; std::vector<int> use(n.size(),0);
    for(auto&q:e){ if(q.size()!=per){ ok=false; continue; } std::set<int> s; for(int k:q){ if(k<0||k>=(int)n.size()) ok=false; else { use[k]++; s.insert(k); } } if(s.size()!=per) ok=false; }
    vc_true(ok,L+": every element has distinct nodes of the mesh"); if(!ok) return false;
    for(size_t i=0;i<n.size();i++) vc_true(use[i]>0,L+": every node belongs to an element");
    return true;
}
static double crs(MN&n,int a,int b,int c){ return (n[b](0)-n[a](0))*(n[c](1)-n[a](1))-(n[b](1)-n[a](1))*(n[c](0)-n[a](0)); }
// elements are convex, counter-clockwise quadrilaterals covering the given area
static void geometry(MN&n,const ME&e,double area,double cmin,const std::string&L){
    double s=0; for(auto&q:e){ for(int k=0;k<4;k++) if(cmin>0) vc_le(cmin,crs(n,q[k],q[(k+1)%4],q[(k+3)%4]),0,L+": element is convex and counter-clockwise"); s+=0.5*(crs(n,q[0],q[1],q[2])+crs(n,q[0],q[2],q[3])); }
    vc_eq(s,area,1e-6,L+": elements cover the area");
}
// directed edges: conforming mesh; returns boundary edges
static std::set<std::pair<int,int>> boundary(const ME&e,const std::string&L){
    std::map<std::pair<int,int>,int> c; for(auto&q:e) for(int k=0;k<4;k++) c[{q[k],q[(k+1)%4]}]++;
    std::set<std::pair<int,int>> b; for(auto&x:c){ vc_true(x.second==1,L+": neighbours share an edge with opposite directions"); if(!c.count({x.first.second,x.first.first})) b.insert(x.first); }
    return b;
}
static void edges_are(const ME&g,const std::set<std::pair<int,int>>&b,size_t per,const std::string&L){
    std::set<std::pair<int,int>> s; bool ok=true; for(auto&x:g){ if(x.size()!=per){ ok=false; continue; } s.insert({x[0],x[1]}); }
    vc_true(ok,L+": edge sizes"); vc_true(g.size()==s.size(),L+": no edge twice"); vc_true(s==b,L+": edges are exactly the boundary, counter-clockwise about the material");
}
// consecutive edges form closed loops starting where the previous one ended (nloops of them)
static void loops(const ME&g,int nloops,const std::string&L){ int start=0,cnt=0; for(size_t i=0;i<g.size();i++){ if(g[i][1]==g[start][0]){ cnt++; start=i+1; } else vc_true(i+1<g.size()&&g[i+1][0]==g[i][1],L+": consecutive edges are connected"); } vc_true(cnt==nloops&&start==(int)g.size(),L+": number of boundary loops"); }
static bool near(Vector<double> p,Vector<double> q){ double a=p(0)-q(0),b=p(1)-q(1); return a*a+b*b<1e-8; }
// selection functions: the predicate selects exactly one node, or every node but one
template<class M> static void fixedlist(M m,MN n,const std::string&L,int k,int mode){
    std::vector<int> ul{0,2}; Vector<double> c=n[k]; auto pr=[=](Vector<double> x)->bool{ return near(x,c)==(mode==0); };
    FL f=m(ul,pr); vc_reach("fixedlist"); std::set<std::pair<int,int>> s; for(auto&x:f){ s.insert(x.first); vc_eq(x.second,0,0,L+": prescribed value is zero"); }
    std::set<std::pair<int,int>> w; for(int i=0;i<(int)n.size();i++) if((i==k)==(mode==0)) for(int u:ul) w.insert({i,u});
    vc_true(f.size()==s.size(),L+": no degree of freedom listed twice"); vc_true(s==w,L+": exactly the selected nodes, each with every listed component");
}
static void distinct(MN&n,double dmin,const std::string&L){ for(size_t i=0;i<n.size();i++) for(size_t j=0;j<i;j++){ double a=n[i](0)-n[j](0),b=n[i](1)-n[j](1); vc_le(dmin,a*a+b*b,0,L+": nodes are distinct"); } }
