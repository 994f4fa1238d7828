// Scalar transport: heat conduction/capacity/flux, advection (plain, SUPG, shock capturing), diffusion, mass, reaction-diffusion.
#include "fem.h"
#include "FEM/Equation/HeatTransfer.h"
#include "FEM/Equation/Advection.h"
#include "FEM/Equation/ReactionDiffusion.h"
template<class F> static void mat1(const std::vector<GP>&gp,const EL&el,Matrix<double>&K,NE&ne,F f,const std::string&l){ int n=el.e.size(); vc_reach(l.c_str()); if(!shape(K,n,n,l)) return; RW r=rows(ne,n,{2},n,l); cmpK(K,r,r,[&](int a,int,int b,int){ double s=0; for(auto&g:gp) s+=f(g,a,b)*g.J*g.w; return s; },l); }
template<template<class>class SF> static void all(const char*kind,int sym,int mode,bool simplex){
    DM X=geom(kind,sym); EL el=mkel(X); rule<RuleA>(2,"A",mode,simplex,sym!=1); auto gp=gps<SF,RuleA>(X); std::vector<int> dl{2}; double al=coef("alpha",0.001,1000),t=coeft("t",0.001,100),rho=coef("rho",0.001,1000),c=vc_real("c",0.001,1000),cx=vc_real("cx",-2,2),cy=vc_real("cy",-2,2); Matrix<double> K; NE ne;
    HeatTransfer<double,SF,RuleA>(K,ne,el.e,dl,el.x,al,t); mat1(gp,el,K,ne,[&](const GP&g,int a,int b){ return al*t*dotg(g,a,b); },"conduction");
    HeatCapacity<double,SF,RuleA>(K,ne,el.e,dl,el.x,rho,c,t); mat1(gp,el,K,ne,[&](const GP&g,int a,int b){ return rho*c*t*g.N[a]*g.N[b]; },"capacity");
    Advection<double,SF,RuleA>(K,ne,el.e,dl,el.x,cx,cy); mat1(gp,el,K,ne,[&](const GP&g,int a,int b){ return g.N[a]*(cx*g.d[b][0]+cy*g.d[b][1]); },"advection");
    Diffusion<double,SF,RuleA>(K,ne,el.e,dl,el.x,al); mat1(gp,el,K,ne,[&](const GP&g,int a,int b){ return al*dotg(g,a,b); },"diffusion");
    Mass<double,SF,RuleA>(K,ne,el.e,dl,el.x); mat1(gp,el,K,ne,[&](const GP&g,int a,int b){ return g.N[a]*g.N[b]; },"mass");
    ReactionDiffusionConsistentMass<double,SF,RuleA>(K,ne,el.e,dl,el.x); mat1(gp,el,K,ne,[&](const GP&g,int a,int b){ return g.N[a]*g.N[b]; },"reaction-diffusion mass");
    ReactionDiffusionStiffness<double,SF,RuleA>(K,ne,el.e,dl,el.x,al); mat1(gp,el,K,ne,[&](const GP&g,int a,int b){ return al*dotg(g,a,b); },"reaction-diffusion stiffness");
    { ReactionDiffusionLumpedMass<double,SF,RuleA>(K,ne,el.e,dl,el.x); int n=el.e.size(); if(!shape(K,n,n,"lumped mass")) return; RW r=rows(ne,n,dl,n,"lumped mass"); double A=0; for(auto&g:gp) A+=g.J*g.w; double tot=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ tot+=K(r[i][0],r[j][0]); if(i!=j) vc_eq(K(r[i][0],r[j][0]),0.0,1e-7,"lumped mass: off-diagonal"); else vc_eq(K(r[i][0],r[j][0]),A/n,1e-6,"lumped mass: diagonal"); } vc_eq(tot,A,1e-6,"lumped mass: total is the area"); }
    { int n=el.e.size(); DM u=symm("u",n,2,-1,1); VX us=spread(el,u); double k0=vc_real("k0",-1,1),k1=vc_real("k1",-1,1),k2=vc_real("k2",-1,1); Vector<double> F; NE nf; ReactionDiffusionReaction<double,SF,RuleA>(F,nf,el.e,dl,el.x,us,[&](double v,Vector<double> d){ return k0+k1*v*v+k2*(d(0)+2*d(1)); }); vc_true(F.SIZE()==n,"reaction: size"); if(F.SIZE()!=n) return; RW r=rows(nf,n,dl,n,"reaction"); cmpF(F,r,[&](int a,int){ double s=0; for(auto&g:gp){ double v=0,dx=0,dy=0; for(int b=0;b<n;b++){ v+=g.N[b]*u[b][0]; dx+=g.d[b][0]*u[b][0]; dy+=g.d[b][1]*u[b][0]; } s+=g.N[a]*(k0+k1*v*v+k2*(dx+2*dy))*g.J*g.w; } return s; },"reaction"); }
}
//@ time=200 | all non-stabilised scalar matrices, 4-node quadrilateral, fixed irregular shape, symbolic integration point/weights, coefficients, field
VC_ENTRY quad4_point(){ all<ShapeFunction4Square>("quad4",0,1,false); }
//@ time=200 | the same, all eight coordinates symbolic, fixed points
VC_ENTRY quad4_geom(){ all<ShapeFunction4Square>("quad4",1,0,false); }
//@ time=200 | the same, 3-node triangle, all coordinates symbolic
VC_ENTRY tri3_geom(){ all<ShapeFunction3Triangle>("tri3",1,0,true); }
//@ time=200 | the same, 8-node quadrilateral, scaled curved shape
VC_ENTRY quad8(){ all<ShapeFunction8Square>("quad8",2,0,false); }
//@ time=200 | the same, 6-node triangle, scaled curved shape
VC_ENTRY tri6(){ all<ShapeFunction6Triangle>("tri6",2,0,true); }
template<template<class>class SF,template<class>class R> static void supg(const char*kind,bool simplex,double L=1,double V=1){
    DM X=geom(kind,0); if(L!=1) for(auto&r:X) for(auto&c:r) c*=L; EL el=mkel(X); rule<R>(2,"A",0,simplex,true); auto gp=gps<SF,R>(X); std::vector<int> dl{2}; double ax=vc_real("ax",-2,2),ay=vc_real("ay",-2,2),k=vc_real("k",0.01,4); vc_assume_lt(0.01,ax*ax+ay*ay); if(L*V!=1){ ax*=V; ay*=V; k*=L*V; } double na=std::sqrt(ax*ax+ay*ay); Matrix<double> K; NE ne;
    AdvectionSUPG<double,SF,R>(K,ne,el.e,dl,el.x,ax,ay,k); Matrix<double> K2,K3; NE n2,n3; AdvectionShockCapturing<double,SF,R>(K2,n2,el.e,dl,el.x,ax,ay,k); MassSUPG<double,SF,R>(K3,n3,el.e,dl,el.x,ax,ay,k);
    int n=X.size(); std::map<const GP*,DV> ags; std::map<const GP*,double> taus,nus; for(auto&g:gp){ DV ag(n); double sum=0; for(int i=0;i<n;i++){ ag[i]=ax*g.d[i][0]+ay*g.d[i][1]; sum+=std::fabs(ag[i]); } double h=2*na/sum, pe=na*h/(2*k), z= pe<=3? pe/3:1.0; taus[&g]=h/(2*na)*z; nus[&g]=na*h/2*z; ags[&g]=ag; }
    mat1(gp,el,K,ne,[&](const GP&g,int a,int b){ return taus[&g]*ags[&g][a]*ags[&g][b]; },"SUPG advection"); mat1(gp,el,K2,n2,[&](const GP&g,int a,int b){ return nus[&g]*dotg(g,a,b); },"shock capturing"); mat1(gp,el,K3,n3,[&](const GP&g,int a,int b){ return taus[&g]*ags[&g][a]*g.N[b]; },"SUPG mass"); }
//@ time=200 | SUPG/shock capturing, 4-node quadrilateral, fixed shape, one point, symbolic velocity (|a|>0.1) and diffusivity
VC_ENTRY supg_quad4(){ supg<ShapeFunction4Square,Rule1>("quad4",false); }
//@ time=200 | SUPG/shock capturing, 4-node quadrilateral, lengths of the order 1e9 or velocities of the order 1e-9
VC_ENTRY supg_scales(){ if(vc_choose("large",0,1)) supg<ShapeFunction4Square,Rule1>("quad4",false,1e9,1); else supg<ShapeFunction4Square,Rule1>("quad4",false,1,1e-9); }
//@ time=300 tier=thorough | SUPG/shock capturing, 4-node quadrilateral, two points
VC_ENTRY supg_quad4_2(){ supg<ShapeFunction4Square,RuleA>("quad4",false); }
//@ time=200 | SUPG/shock capturing, 3-node triangle, two points
VC_ENTRY supg_tri3(){ supg<ShapeFunction3Triangle,RuleA>("tri3",true); }
template<template<class>class SF> static void flux(const char*kind,int sym,int mode){ DM X=geom(kind,sym); EL el=mkel(X); rule<RuleA>(1,"A",mode); double t=coeft("t",0.001,100); int n=X.size(); Load f=load(1,2); Vector<double> F; NE ne; std::vector<int> dl{2}; HeatTransferSurfaceFlux<double,SF,RuleA>(F,ne,el.e,dl,el.x,[&](Vector<double> x){ return f(x)(0); },t); vc_reach("flux"); vc_true(F.SIZE()==n,"flux: size"); if(F.SIZE()!=n) return; RW r=rows(ne,n,dl,n,"flux");
    cmpF(F,r,[&](int a,int){ double s=0; for(int q=0;q<RuleA<double>::N;q++){ Vector<double> p=RuleA<double>::Points[q],p2=p; Vector<double> N=SF<double>::N(p); Matrix<double> D=SF<double>::dNdr(p2); DV x(2,0.0),tx(2,0.0); for(int b=0;b<n;b++) for(int k=0;k<2;k++){ x[k]+=N(b)*X[b][k]; tx[k]+=D(0,b)*X[b][k]; } s+=N(a)*f.at(x,0)*std::sqrt(tx[0]*tx[0]+tx[1]*tx[1])*RuleA<double>::Weights[q][0]*t; } return s; },"flux"); }
//@ time=100 | surface heat flux on a straight edge: symbolic end points, flux, thickness
VC_ENTRY flux2(){ flux<ShapeFunction2Line>("line2",1,0); }
//@ time=100 | surface heat flux on a curved 3-node edge: symbolic integration point
VC_ENTRY flux3(){ flux<ShapeFunction3Line>("line3",0,1); }
//@ time=200 jobs=2 | units: conductivity, diffusivity and density times 10^-7 or 10^9, thickness times 10^-6 or 10^6
VC_ENTRY units_quad4(){ units(); all<ShapeFunction4Square>("quad4",0,1,false); }
//@ time=200 jobs=2 | units: surface flux
VC_ENTRY units_flux(){ units(); flux<ShapeFunction2Line>("line2",1,0); }
