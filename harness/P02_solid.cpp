// Plane stress, 3-D solid and truss: stiffness, mass and loads equal the weak form of isotropic elasticity.
#include "fem.h"
#include "FEM/Equation/PlaneStress.h"
#include "FEM/Equation/Solid.h"
#include "FEM/Equation/Truss.h"
template<template<class>class SF> static void pstress(const char*kind,int sym,int mode,bool simplex){
    DM X=geom(kind,sym); EL el=mkel(X); rule<RuleA>(2,"A",mode,simplex,sym!=1); double E=coef("E",0.001,1000000),V=vc_real("V",-0.9,0.5),t=coeft("t",0.001,100),mu=E/(2*(1+V)),lam=E*V/((1+V)*(1-V)); int n=X.size(); Matrix<double> K; NE ne; std::vector<int> dl{2,0}; PlaneStressStiffness<double,SF,RuleA>(K,ne,el.e,dl,el.x,E,V,t); vc_reach("stiffness"); if(!shape(K,2*n,2*n,"stiffness")) return; RW r=rows(ne,n,dl,2*n,"stiffness"); auto gp=gps<SF,RuleA>(X);
    cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=0; for(auto&g:gp) s+=iso(g,a,i,b,j,lam,mu)*g.J*g.w*t; return s; },"K");
    Matrix<double> M; NE nm; double rho=coef("rho",0.001,10000); PlaneStressMass<double,SF,RuleA>(M,nm,el.e,dl,el.x,rho,t); if(!shape(M,2*n,2*n,"mass")) return; r=rows(nm,n,dl,2*n,"mass"); cmpK(M,r,r,[&](int a,int i,int b,int j){ double s=0; if(i==j) for(auto&g:gp) s+=rho*g.N[a]*g.N[b]*g.J*g.w*t; return s; },"M");
    Load f=load(2,2); Vector<double> F; NE nf; PlaneStressBodyForce<double,SF,RuleA>(F,nf,el.e,dl,el.x,f,t); vc_true(F.SIZE()==2*n,"body force: size"); if(F.SIZE()!=2*n) return; r=rows(nf,n,dl,2*n,"body force"); cmpF(F,r,[&](int a,int i){ double s=0; for(auto&g:gp) s+=g.N[a]*f.at(g.x,i)*g.J*g.w*t; return s; },"body force");
}
//@ time=200 | plane stress, 4-node quadrilateral, fixed irregular shape; symbolic integration point, weights, material, load
VC_ENTRY ps_quad4_point(){ pstress<ShapeFunction4Square>("quad4",0,1,false); }
//@ time=200 | plane stress, 4-node quadrilateral with all coordinates symbolic, fixed points, symbolic material
VC_ENTRY ps_quad4_geom(){ pstress<ShapeFunction4Square>("quad4",1,0,false); }
//@ time=200 | plane stress, 3-node triangle with all coordinates symbolic
VC_ENTRY ps_tri3_geom(){ pstress<ShapeFunction3Triangle>("tri3",1,0,true); }
//@ time=200 | plane stress, 8-node quadrilateral, scaled fixed shape
VC_ENTRY ps_quad8(){ pstress<ShapeFunction8Square>("quad8",2,0,false); }
template<template<class>class SF> static void pssurf(const char*kind,int sym,int mode){ DM X=geom(kind,sym); EL el=mkel(X); rule<RuleA>(1,"A",mode); double t=coeft("t",0.001,100); int n=X.size(); Load f=load(2,2); Vector<double> F; NE ne; std::vector<int> dl{2,0}; PlaneStressSurfaceForce<double,SF,RuleA>(F,ne,el.e,dl,el.x,f,t); vc_reach("surface"); vc_true(F.SIZE()==2*n,"surface force: size"); if(F.SIZE()!=2*n) return; RW r=rows(ne,n,dl,2*n,"surface force");
    cmpF(F,r,[&](int a,int i){ double s=0; for(int q=0;q<RuleA<double>::N;q++){ Vector<double> p=RuleA<double>::Points[q],p2=p; Vector<double> N=SF<double>::N(p); Matrix<double> D=SF<double>::dNdr(p2); DV x(2,0.0),tx(2,0.0); for(int b=0;b<n;b++) for(int k=0;k<2;k++){ x[k]+=N(b)*X[b][k]; tx[k]+=D(0,b)*X[b][k]; } s+=N(a)*f.at(x,i)*std::sqrt(tx[0]*tx[0]+tx[1]*tx[1])*RuleA<double>::Weights[q][0]*t; } return s; },"surface force"); }
//@ time=100 | plane stress traction on a straight edge: symbolic end points, load, thickness
VC_ENTRY ps_surface2(){ pssurf<ShapeFunction2Line>("line2",1,0); }
//@ time=100 | plane stress traction on a curved 3-node edge: symbolic integration point, load, thickness
VC_ENTRY ps_surface3(){ pssurf<ShapeFunction3Line>("line3",0,1); }
template<template<class>class SF> static void solid(const char*kind,int sym,int mode,bool simplex,bool symmat){
    DM X=geom(kind,sym); EL el=mkel(X); rule<Rule1>(3,"A",mode,simplex,sym!=1); double E=coef("E",0.001,1000000),V=symmat?vc_real("V",-0.9,0.4995):0.25,mu=E/(2*(1+V)),lam=E*V/((1+V)*(1-2*V)); int n=X.size(); Matrix<double> K; NE ne; std::vector<int> dl{2,0,1}; SolidLinearIsotropicElastic<double,SF,Rule1>(K,ne,el.e,dl,el.x,E,V); vc_reach("stiffness"); if(!shape(K,3*n,3*n,"stiffness")) return; RW r=rows(ne,n,dl,3*n,"stiffness"); auto gp=gps<SF,Rule1>(X);
    cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=0; for(auto&g:gp) s+=iso(g,a,i,b,j,lam,mu)*g.J*g.w; return s; },"K"); }
//@ time=200 | solid, 4-node tetrahedron with all coordinates symbolic; symbolic E, nu
VC_ENTRY solid_tet4(){ solid<ShapeFunction4Tetrahedron>("tet4",1,0,true,true); }
//@ time=300 | solid, 8-node hexahedron, scaled irregular shape, fixed point, symbolic E, nu, weights
VC_ENTRY solid_hex8(){ solid<ShapeFunction8Cubic>("hex8",2,0,false,true); }
//@ time=300 tier=thorough | solid, 8-node hexahedron, irregular shape, symbolic integration point
VC_ENTRY solid_hex8_point(){ solid<ShapeFunction8Cubic>("hex8",0,1,false,false); }
//@ time=100 | truss member with any distinct end points, E, A: axial stiffness EA/l in the member direction
VC_ENTRY truss(){ DM X=symm("x",2,2); vc_assume_lt(0.25,(X[1][0]-X[0][0])*(X[1][0]-X[0][0])+(X[1][1]-X[0][1])*(X[1][1]-X[0][1])); EL el=mkel(X); double E=coef("E",0.001,1000000),A=coeft("A",0.0001,1000); Matrix<double> K; NE ne; std::vector<int> dl{3,1}; Truss2D<double>(K,ne,el.e,dl,el.x,E,A); vc_reach("truss"); if(!shape(K,4,4,"truss")) return; RW r=rows(ne,2,dl,4,"truss"); DV d{X[1][0]-X[0][0],X[1][1]-X[0][1]}; double l=std::sqrt(d[0]*d[0]+d[1]*d[1]); cmpK(K,r,r,[&](int a,int i,int b,int j){ return (a==b?1.0:-1.0)*E*A*d[i]*d[j]/(l*l*l); },"K"); }
//@ time=200 jobs=2 | units: modulus and density times 10^-7 or 10^9, thickness times 10^-6 or 10^6: plane stress
VC_ENTRY units_ps(){ units(); pstress<ShapeFunction4Square>("quad4",0,1,false); }
//@ time=200 jobs=2 | units: plane-stress edge traction
VC_ENTRY units_ps_surface(){ units(); pssurf<ShapeFunction2Line>("line2",1,0); }
//@ time=200 jobs=2 | units: tetrahedron
VC_ENTRY units_tet4(){ units(false); solid<ShapeFunction4Tetrahedron>("tet4",2,0,true,true); }
