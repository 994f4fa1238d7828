// Beam and shell: stiffness equals the strain energy of the degenerate-continuum kinematics (independent derivation).
#include "fem.h"
#include "FEM/Equation/Beam.h"
#include "FEM/Equation/Shell.h"
typedef DV V3;
static V3 cr(const V3&a,const V3&b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; } static double dt(const V3&a,const V3&b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; } static V3 un(const V3&a){ double l=std::sqrt(dt(a,a)); return {a[0]/l,a[1]/l,a[2]/l}; }
// gradient of the displacement of one generalised dof: rows of G = d u / d(r_k), pulled back with inverse Jacobian; returns small strain
static DM strain(const DM&ij,const DM&G){ DM h(3,DV(3,0.0)); for(int j=0;j<3;j++) for(int i=0;i<3;i++) for(int k=0;k<3;k++) h[i][j]+=ij[j][k]*G[k][i]; DM e(3,DV(3)); for(int i=0;i<3;i++) for(int j=0;j<3;j++) e[i][j]=0.5*(h[i][j]+h[j][i]); return e; }
static double pr(const V3&a,const DM&e,const V3&b){ double s=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) s+=a[i]*e[i][j]*b[j]; return s; }
template<template<class>class SF> static void shell(const DM&X,int mode,bool six,int symt){
    EL el=mkel(X); int n=X.size(),nd=six?6:5; rule<Rule1>(2,"A",mode,false,true); rule<RuleB>(1,"Z",symt?0:1,false,false); double E=coef("E",0.01,1e9),V=vc_real("V",-0.9,0.4995),t=symt==1?vc_real("t",1e-6,0.5):symt==3?0.25*g_scale():0.25; Matrix<double> K; NE ne; std::vector<int> dl{4,0,2,1,3}; if(six) dl.push_back(5);
    if(six) ShellLinearIsotropicElastic2<double,SF,Rule1,RuleB>(K,ne,el.e,dl,el.x,E,V,t); else ShellLinearIsotropicElastic<double,SF,Rule1,RuleB>(K,ne,el.e,dl,el.x,E,V,t); vc_reach("shell"); if(!shape(K,nd*n,nd*n,"shell")) return; RW r=rows(ne,n,dl,nd*n,"shell");
    V3 l{X[1][0]-X[0][0],X[1][1]-X[0][1],X[1][2]-X[0][2]}; std::vector<V3> v1,v2,v3; for(int a=0;a<n;a++){ Vector<double> p=SF<double>::Points[a]; Matrix<double> D=SF<double>::dNdr(p); V3 t0(3,0.0),t1(3,0.0); for(int b=0;b<n;b++) for(int i=0;i<3;i++){ t0[i]+=D(0,b)*X[b][i]; t1[i]+=D(1,b)*X[b][i]; } v3.push_back(un(cr(t0,t1))); v1.push_back(un(cr(l,v3[a]))); v2.push_back(un(cr(v3[a],v1[a]))); }
    int m=nd*n; struct Q{ std::vector<DV> B; double wj; }; std::vector<Q> qs;
    for(int gi=0;gi<Rule1<double>::N;gi++) for(int hi=0;hi<RuleB<double>::N;hi++){ Q Q0; Q0.B.resize(m); auto&B=Q0.B;
    Vector<double> p=Rule1<double>::Points[gi],p2=p; double z=RuleB<double>::Points[hi](0); Vector<double> N=SF<double>::N(p); Matrix<double> D=SF<double>::dNdr(p2); DM J(3,DV(3,0.0)); for(int b=0;b<n;b++) for(int i=0;i<3;i++){ double q=X[b][i]+0.5*t*z*v3[b][i]; J[0][i]+=D(0,b)*q; J[1][i]+=D(1,b)*q; J[2][i]+=N(b)*0.5*t*v3[b][i]; } double det; DM ij=inv_adj(J,det); V3 e3=un(cr(J[0],J[1])),e1=un(cr(l,e3)),e2=un(cr(e3,e1)); Q0.wj=det*Rule1<double>::Weights[gi][0]*Rule1<double>::Weights[gi][1]*RuleB<double>::Weights[hi][0];
    for(int a=0;a<n;a++) for(int k=0;k<nd;k++){ V3 mid(3,0.0),fib(3,0.0); if(k<3) mid[k]=1; else if(!six){ for(int i=0;i<3;i++) fib[i]= k==3? -v2[a][i]: v1[a][i]; } else { double al=v1[a][k-3],be=v2[a][k-3]; for(int i=0;i<3;i++) fib[i]=-v2[a][i]*al+v1[a][i]*be; }
        DM G(3,DV(3)); for(int i=0;i<3;i++){ double q=mid[i]+0.5*t*z*fib[i]; G[0][i]=D(0,a)*q; G[1][i]=D(1,a)*q; G[2][i]=N(a)*0.5*t*fib[i]; } DM e=strain(ij,G); B[a*nd+k]={pr(e1,e,e1),pr(e2,e,e2),2*pr(e1,e,e2),2*pr(e1,e,e3),2*pr(e2,e,e3)}; } qs.push_back(Q0); }
    double c=1/(1-V*V)/t,gm=1/(2*(1+V))/t; K=K*(1/(E*t)); cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=0; for(auto&q:qs){ auto&x=q.B[a*nd+i]; auto&y=q.B[b*nd+j]; s+=q.wj*(c*(x[0]*y[0]+x[1]*y[1]+V*(x[0]*y[1]+x[1]*y[0]))+gm*(x[2]*y[2]+(x[3]*y[3]+x[4]*y[4])/1.2)); } return s; },"K",1e-6); }
static DM flat(){ return {{0,0,0},{1.5,0,0.25},{1.75,1.25,0.5},{-0.25,1,0.25}}; } static DM curved(){ return {{0,0,0},{1.5,0,0.25},{1.75,1.25,-0.25},{-0.25,1,0.5}}; } static DM plane(){ return {{0,0,0},{1.5,0,0},{1.75,1.25,0},{-0.25,1,0}}; }
//@ time=300 | 5-dof shell, warped quadrilateral, fixed point; symbolic in-plane weights, E, nu, thickness
VC_ENTRY shell5_t(){ shell<ShapeFunction4Square>(curved(),0,false,1); }
//@ time=300 | 5-dof shell, plane quadrilateral, symbolic in-plane point, height coordinate, E, nu
VC_ENTRY shell5_p(){ shell<ShapeFunction4Square>(plane(),1,false,0); }
//@ time=300 | 6-dof shell, warped quadrilateral, fixed point and thickness; symbolic weights, E, nu
VC_ENTRY shell6_w(){ shell<ShapeFunction4Square>(curved(),0,true,2); }
//@ time=300 | 6-dof shell, plane quadrilateral, symbolic in-plane point, height coordinate, E, nu
VC_ENTRY shell6_p(){ shell<ShapeFunction4Square>(plane(),1,true,0); }
//@ time=300 | 5-dof and 6-dof shell, 8-node warped element, fixed point and thickness; symbolic weights, E, nu
VC_ENTRY shell8(){ DM X; static const double q[8][2]={{0,0},{2,0},{2.5,2},{-0.25,1.5},{1,-0.125},{2.375,1},{1,1.875},{0,0.75}}; for(auto&p:q) X.push_back({p[0],p[1],0.125*p[0]*p[1]-0.0625*p[0]*p[0]}); shell<ShapeFunction8Square>(X,0,vc_choose("six",0,1)==1,2); }
//@ time=1500 tier=thorough | 5-dof shell, warped quadrilateral, symbolic height coordinate, E, nu
VC_ENTRY shell5_z(){ shell<ShapeFunction4Square>(curved(),0,false,0); }
template<template<class>class SF> static void beam(const DM&X,const DM&d1,const DM&d2,int mode,int symsec){
    EL el=mkel(X); int n=X.size(); rule<Rule1>(1,"A",mode,false,true); rule<RuleB>(2,"S",symsec==2?1:0,false,true); double E=coef("E",0.01,1e9),V=vc_real("V",-0.9,0.4995),h1=symsec==1?vc_real("a",1e-6,2):0.5,h2=symsec==1?vc_real("b",1e-6,2):0.75; if(symsec==3){ h1*=g_scale(); h2*=g_scale(); } VX w1=spread(el,d1),w2=spread(el,d2); for(auto&w:{&w1,&w2}) for(auto&v:*w) if(v(0)==-3) v(2)=1; Matrix<double> K; NE ne; std::vector<int> dl{4,0,2,1,3,5}; BeamLinearIsotropicElastic<double,SF,Rule1,RuleB>(K,ne,el.e,dl,el.x,w1,w2,E,V,h1,h2); vc_reach("beam"); if(!shape(K,6*n,6*n,"beam")) return; RW r=rows(ne,n,dl,6*n,"beam");
    std::vector<V3> v1,v2; for(int a=0;a<n;a++){ v1.push_back(un(d1[a])); v2.push_back(un(d2[a])); }
    struct Q{ std::vector<DV> B; double wj; }; std::vector<Q> qs;
    for(int gi=0;gi<Rule1<double>::N;gi++) for(int hi=0;hi<RuleB<double>::N;hi++){ Q Q0;
    Vector<double> p=Rule1<double>::Points[gi],p2=p; Vector<double> q=RuleB<double>::Points[hi]; double y=q(0),z=q(1); Vector<double> N=SF<double>::N(p); Matrix<double> D=SF<double>::dNdr(p2); DM J(3,DV(3,0.0)); V3 f1(3,0.0),f2(3,0.0); for(int b=0;b<n;b++) for(int i=0;i<3;i++){ J[0][i]+=D(0,b)*(X[b][i]+0.5*h1*y*v1[b][i]+0.5*h2*z*v2[b][i]); J[1][i]+=N(b)*0.5*h1*v1[b][i]; J[2][i]+=N(b)*0.5*h2*v2[b][i]; f1[i]+=N(b)*v1[b][i]; f2[i]+=N(b)*v2[b][i]; } double det; DM ij=inv_adj(J,det); V3 e1=un(f1),e2=un(f2),e0=un(cr(e1,e2)); Q0.wj=det*Rule1<double>::Weights[gi][0]*RuleB<double>::Weights[hi][0]*RuleB<double>::Weights[hi][1]; Q0.B.resize(6*n); auto&B=Q0.B;
    for(int a=0;a<n;a++) for(int k=0;k<6;k++){ V3 mid(3,0.0),g1(3,0.0),g2(3,0.0); if(k<3) mid[k]=1; else { V3 th(3,0.0); th[k-3]=1; g1=cr(th,v1[a]); g2=cr(th,v2[a]); } DM G(3,DV(3)); for(int i=0;i<3;i++){ G[0][i]=D(0,a)*(mid[i]+0.5*h1*y*g1[i]+0.5*h2*z*g2[i]); G[1][i]=N(a)*0.5*h1*g1[i]; G[2][i]=N(a)*0.5*h2*g2[i]; } DM e=strain(ij,G); B[6*a+k]={pr(e0,e,e0),2*pr(e0,e,e1),2*pr(e0,e,e2)}; } qs.push_back(Q0); }
    double ab=h1*h2,gm=1/(2*(1+V))/1.2/ab; K=K*(1/(E*ab)); cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=0; for(auto&q:qs){ auto&x=q.B[a*6+i]; auto&w=q.B[b*6+j]; s+=q.wj*(x[0]*w[0]/ab+gm*(x[1]*w[1]+x[2]*w[2])); } return s; },"K",1e-6); }
static DM bx2(){ return {{0,0,0.25},{1.5,0.75,-0.25}}; } static DM bx3(){ return {{0,0,0},{2,0.25,0},{1,0.25,0.25}}; }
//@ time=300 | 2-node beam in space, section axes constant (not unit length), symbolic axial point, section sizes, E, nu
VC_ENTRY beam2_sec(){ beam<ShapeFunction2Line>(bx2(),{{0,3,4},{0,3,4}},{{0,-4,3},{0,-4,3}},0,1); }
//@ time=300 | 2-node beam, axis-aligned section axes, symbolic axial and section points, E, nu
VC_ENTRY beam2_point(){ beam<ShapeFunction2Line>(bx2(),{{0,2,0},{0,2,0}},{{0,0,0.5},{0,0,0.5}},1,2); }
//@ time=300 | 3-node curved and twisted beam (nodal section axes differ), symbolic section sizes, E, nu
VC_ENTRY beam3(){ beam<ShapeFunction3Line>(bx3(),{{0.25,1,0},{0,1,0.25},{0,1,0}},{{0,0.125,1},{0.25,0,1},{0,-0.25,1}},0,1); }
