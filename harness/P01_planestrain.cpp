// Plane strain, linear: stiffness variants, mass, loads equal the weak form for every material, thickness, geometry, integration point.
#include "fem.h"
#include "FEM/Equation/PlaneStrain.h"
struct Mat{ double E,V,t,lam,mu; };
static Mat mat(){ Mat m; m.E=coef("E",0.001,1000000); m.V=vc_real("V",-0.9,0.4995); m.t=coeft("t",0.001,100); m.mu=m.E/(2*(1+m.V)); m.lam=m.E*m.V/((1+m.V)*(1-2*m.V)); return m; }
template<template<class>class SF> static void stiff(const char*kind,int sym,int mode,bool simplex){
    DM X=geom(kind,sym); EL el=mkel(X); rule<RuleA>(2,"A",mode,simplex,sym!=1); Mat m=mat(); int n=X.size(); Matrix<double> K; NE ne; std::vector<int> dl{3,1}; PlaneStrainStiffness<double,SF,RuleA>(K,ne,el.e,dl,el.x,m.E,m.V,m.t); vc_reach("stiffness"); if(!shape(K,2*n,2*n,"stiffness")) return; RW r=rows(ne,n,dl,2*n,"stiffness"); auto gp=gps<SF,RuleA>(X);
    cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=0; for(auto&g:gp) s+=iso(g,a,i,b,j,m.lam,m.mu)*g.J*g.w*m.t; return s; },"K");
    Matrix<double> M; NE nm; double rho=coef("rho",0.001,10000); PlaneStrainMass<double,SF,RuleA>(M,nm,el.e,dl,el.x,rho,m.t); if(!shape(M,2*n,2*n,"mass")) return; r=rows(nm,n,dl,2*n,"mass"); cmpK(M,r,r,[&](int a,int i,int b,int j){ double s=0; if(i==j) for(auto&g:gp) s+=rho*g.N[a]*g.N[b]*g.J*g.w*m.t; return s; },"M");
    Load f=load(2,2); Vector<double> F; NE nf; PlaneStrainBodyForce<double,SF,RuleA>(F,nf,el.e,dl,el.x,f,m.t); vc_true(F.SIZE()==2*n,"body force: size"); if(F.SIZE()!=2*n) return; r=rows(nf,n,dl,2*n,"body force"); cmpF(F,r,[&](int a,int i){ double s=0; for(auto&g:gp) s+=g.N[a]*f.at(g.x,i)*g.J*g.w*m.t; return s; },"body force");
}
//@ time=200 | 4-node quadrilateral, fixed irregular shape; symbolic integration point and weights, E, nu, t, rho, load coefficients
VC_ENTRY quad4_point(){ stiff<ShapeFunction4Square>("quad4",0,1,false); }
//@ time=200 | 4-node quadrilateral, all eight coordinates symbolic (+-0.25), two fixed integration points; symbolic E, nu, t
VC_ENTRY quad4_geom(){ stiff<ShapeFunction4Square>("quad4",1,0,false); }
//@ time=200 | 3-node triangle, all coordinates symbolic; symbolic E, nu, t
VC_ENTRY tri3_geom(){ stiff<ShapeFunction3Triangle>("tri3",1,0,true); }
//@ time=200 | 6-node triangle, fixed curved shape; symbolic integration point and material
VC_ENTRY tri6_point(){ stiff<ShapeFunction6Triangle>("tri6",2,0,true); }
//@ time=300 | 8-node quadrilateral, fixed curved shape scaled; symbolic material
VC_ENTRY quad8(){ stiff<ShapeFunction8Square>("quad8",2,0,false); }
template<template<class>class SF> static void sri(const char*kind,int sym,int mode){
    DM X=geom(kind,sym); EL el=mkel(X); rule<RuleA>(2,"A",mode); rule<RuleB>(2,"B",mode); Mat m=mat(); int n=X.size(); std::vector<int> dl{0,2}; auto gd=gps<SF,RuleA>(X),gv=gps<SF,RuleB>(X); double kap=m.E/(3*(1-2*m.V));
    { Matrix<double> K; NE ne; PlaneStrainStiffnessSRI<double,SF,RuleB,RuleA>(K,ne,el.e,dl,el.x,m.E,m.V,m.t); vc_reach("sri"); if(!shape(K,2*n,2*n,"sri")) return; RW r=rows(ne,n,dl,2*n,"sri"); cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=0; for(auto&g:gv) s+=kap*g.d[a][i]*g.d[b][j]*g.J*g.w*m.t; for(auto&g:gd) s+=iso(g,a,i,b,j,-2*m.mu/3,m.mu)*g.J*g.w*m.t; return s; },"SRI"); }
    { Matrix<double> K; NE ne; PlaneStrainStiffnessBbar<double,SF,RuleB,RuleA>(K,ne,el.e,dl,el.x,m.E,m.V,m.t); if(!shape(K,2*n,2*n,"bbar")) return; RW r=rows(ne,n,dl,2*n,"bbar"); cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=0; for(auto&g:gv) s+=(m.lam+m.mu)*g.d[a][i]*g.d[b][j]*g.J*g.w*m.t; for(auto&g:gd) s+=iso(g,a,i,b,j,-m.mu,m.mu)*g.J*g.w*m.t; return s; },"B-bar"); }
}
//@ time=200 | selective reduced integration and B-bar, fixed quadrilateral, both rules symbolic, symbolic material
VC_ENTRY sri_point(){ sri<ShapeFunction4Square>("quad4",0,1); }
//@ time=200 | selective reduced integration and B-bar, symbolic quadrilateral, fixed rules, symbolic material
VC_ENTRY sri_geom(){ sri<ShapeFunction4Square>("quad4",1,0); }
//@ time=300 | Wilson-Taylor incompatible modes: condensed stiffness, scaled fixed quadrilateral, two fixed points, symbolic E, t (nu = 1/4) and scale
VC_ENTRY wilson(){ DM X=geom("quad4",2); EL el=mkel(X); int n=4; rule<RuleC>(2,"C",0,false,false); RuleC<double>::Points[0](0)=0.5; RuleC<double>::Points[0](1)=0.5; RuleC<double>::Points[1](0)=-0.75; RuleC<double>::Points[1](1)=0.25; double E=coef("E",0.001,1000000),V=0.25,t=coeft("t",0.001,100),mu=E/(2*(1+V)),lam=E*V/((1+V)*(1-2*V)); std::vector<int> dl{1,0}; Matrix<double> K; NE ne; PlaneStrainStiffnessWilsonTaylor<double,ShapeFunction4Square,RuleC>(K,ne,el.e,dl,el.x,E,V,t); vc_reach("wilson"); if(!shape(K,8,8,"wilson")) return; RW r=rows(ne,n,dl,8,"wilson");
    // enlarge the element by two bubble functions P1=1-r^2, P2=1-s^2 and condense them
    auto gp=gps<ShapeFunction4Square,RuleC>(X); for(size_t q=0;q<gp.size();q++){ Vector<double> p=RuleC<double>::Points[q]; Vector<double> p2=p; Matrix<double> D=ShapeFunction4Square<double>::dNdr(p2); DM jac(2,DV(2,0.0)); for(int k=0;k<2;k++) for(int i=0;i<2;i++) for(int a=0;a<4;a++) jac[k][i]+=D(k,a)*X[a][i]; double det; DM ij=inv_adj(jac,det); for(int m=0;m<2;m++){ double dr[2]={0,0}; dr[m]=-2*p(m); gp[q].d.push_back(DV{ij[0][0]*dr[0]+ij[0][1]*dr[1],ij[1][0]*dr[0]+ij[1][1]*dr[1]}); } }
    auto k=[&](int a,int i,int b,int j){ double s=0; for(auto&g:gp) s+=iso(g,a,i,b,j,lam,mu)*g.J*g.w*t; return s; };
    // K_condensed satisfies: exists Y (4x8) with Kaa Y = Kad and K = Kdd - Kda Y ; Y from Cramer-free elimination of the oracle's own
    DM A(4,DV(12)); for(int p=0;p<4;p++){ for(int q=0;q<4;q++) A[p][q]=k(4+p/2,p%2,4+q/2,q%2); for(int q=0;q<8;q++) A[p][4+q]=k(4+p/2,p%2,q/2,q%2); } for(int c=0;c<4;c++){ for(int p=0;p<4;p++) if(p!=c){ double f=A[p][c]/A[c][c]; for(int q=c;q<12;q++) A[p][q]-=f*A[c][q]; } } 
    cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=k(a,i,b,j); for(int p=0;p<4;p++) s-=k(4+p/2,p%2,a,i)*A[p][4+2*b+j]/A[p][p]; return s; },"Wilson-Taylor"); }
template<template<class>class SF> static void surf(const char*kind,int sym,int mode){ DM X=geom(kind,sym); EL el=mkel(X); rule<RuleA>(1,"A",mode); double t=coeft("t",0.001,100); int n=X.size(); Load f=load(2,2); Vector<double> F; NE ne; std::vector<int> dl{2,0}; PlaneStrainSurfaceForce<double,SF,RuleA>(F,ne,el.e,dl,el.x,f,t); vc_reach("surface"); vc_true(F.SIZE()==2*n,"surface force: size"); if(F.SIZE()!=2*n) return; RW r=rows(ne,n,dl,2*n,"surface force");
    cmpF(F,r,[&](int a,int i){ double s=0; for(int q=0;q<RuleA<double>::N;q++){ Vector<double> p=RuleA<double>::Points[q],p2=p; Vector<double> N=SF<double>::N(p); Matrix<double> D=SF<double>::dNdr(p2); DV x(2,0.0),tx(2,0.0); for(int b=0;b<n;b++) for(int k=0;k<2;k++){ x[k]+=N(b)*X[b][k]; tx[k]+=D(0,b)*X[b][k]; } s+=N(a)*f.at(x,i)*std::sqrt(tx[0]*tx[0]+tx[1]*tx[1])*RuleA<double>::Weights[q][0]*t; } return s; },"surface force"); }
//@ time=100 | traction on a straight 2-node edge: symbolic end points, load, thickness
VC_ENTRY surface2(){ surf<ShapeFunction2Line>("line2",1,0); }
//@ time=100 | traction on a curved 3-node edge: symbolic integration point, load, thickness
VC_ENTRY surface3(){ surf<ShapeFunction3Line>("line3",0,1); }
//@ time=200 jobs=2 | units: modulus and density times 10^-7 or 10^9, thickness times 10^-6 or 10^6: stiffness, mass, body force on the quadrilateral
VC_ENTRY units_quad4(){ units(); stiff<ShapeFunction4Square>("quad4",0,1,false); }
//@ time=200 jobs=2 | units: selective reduced integration and B-bar
VC_ENTRY units_sri(){ units(); sri<ShapeFunction4Square>("quad4",0,1); }
//@ time=200 jobs=2 | units: edge traction
VC_ENTRY units_surface(){ units(); surf<ShapeFunction2Line>("line2",1,0); }
