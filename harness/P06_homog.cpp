// Homogenisation: nodal loads of unit macroscopic strains, homogenised elasticity, check matrix, plane stiffness with a given elasticity matrix.
#include "fem.h"
#include "FEM/Equation/Homogenization.h"
static double Bv(const DM&d,int I,int a,int i){ return I==0?(i==0?d[a][0]:0.0):I==1?(i==1?d[a][1]:0.0):(i==0?d[a][1]:d[a][0]); }
static Matrix<double> nmm(Matrix<double> M){ for(int i=0;i<M.ROW();i++) for(int j=0;j<M.COL();j++) M(i,j)=nm(M(i,j)); return M; } static DM nmd(DM M){ for(auto&v:M) for(auto&q:v) q=nm(q); return M; }
static DM iso3(double E,double V){ double c=E/((1-2*V)*(1+V)); return DM{{c*(1-V),c*V,0.0},{c*V,c*(1-V),0.0},{0.0,0.0,E/(2*(1+V))}}; }
template<template<class>class SF> static void hom(const char*kind,int sym,int mode,bool simplex){
    DM X=geom(kind,sym); EL el=mkel(X); int n=X.size(); rule<RuleA>(2,"A",mode,simplex,sym!=1); auto gp=gps<SF,RuleA>(X); double E=coef("E",0.001,1000000),V=vc_real("V",-0.9,0.4995),t=coeft("t",0.001,100); DM D=iso3(E,V); std::vector<int> dl{3,1};
    Matrix<double> F; NE ne; HomogenizePlaneStrainBodyForce<double,SF,RuleA>(F,ne,el.e,dl,el.x,E,V,t); vc_reach("load"); if(!shape(F,2*n,3,"unit-strain load")) return; RW r=rows(ne,n,dl,2*n,"unit-strain load");
    for(int a=0;a<n;a++) for(int i=0;i<2;i++) for(int k=0;k<3;k++){ double s=0; for(auto&g:gp) for(int I=0;I<3;I++) s+=Bv(g.d,I,a,i)*D[I][k]*g.J*g.w*t; vc_eq(nm(F(r[a][i],k)),nm(s),1e-6,"unit-strain load("+std::to_string(a)+std::to_string(i)+","+std::to_string(k)+")"); }
    DM c[3]; VX cs[3]; for(int k=0;k<3;k++){ c[k]=symm("chi"+std::to_string(k)+"_",n,2,-1,1); cs[k]=spread(el,c[k]); }
    DM eps(3,DV(3,0.0)),C(3,DV(3,0.0)),H(3,DV(3,0.0)); for(auto&g:gp){ DM e(3,DV(3,0.0)); for(int I=0;I<3;I++) for(int k=0;k<3;k++) for(int a=0;a<n;a++) for(int i=0;i<2;i++) e[I][k]+=Bv(g.d,I,a,i)*c[k][a][i]; for(int I=0;I<3;I++) for(int k=0;k<3;k++){ H[I][k]-=e[I][k]*g.J*g.w*t; for(int q=0;q<3;q++) C[I][k]+=D[I][q]*((q==k?1.0:0.0)-e[q][k])*g.J*g.w*t; } }
    eqm(nmm(HomogenizePlaneStrainConstitutive<double,SF,RuleA>(el.x,el.e,cs[0],cs[1],cs[2],E,V,t)),nmd(C),"homogenised elasticity",1e-6); eqm(HomogenizePlaneStrainCheck<double,SF,RuleA>(el.x,el.e,cs[0],cs[1],cs[2],t),H,"homogenisation check",1e-6);
    DM G=symm("D",3,3); Matrix<double> K; PlaneStiffness<double,SF,RuleA>(K,ne,el.e,dl,el.x,tom(G),t); if(!shape(K,2*n,2*n,"stiffness")) return; r=rows(ne,n,dl,2*n,"stiffness"); cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=0; for(auto&g:gp) for(int I=0;I<3;I++) for(int Q=0;Q<3;Q++) s+=Bv(g.d,I,a,i)*G[I][Q]*Bv(g.d,Q,b,j)*g.J*g.w*t; return s; },"stiffness"); }
//@ time=200 | 4-node quadrilateral, fixed shape, symbolic point and weights, E, nu, t, correctors, general elasticity matrix
VC_ENTRY quad4_point(){ hom<ShapeFunction4Square>("quad4",0,1,false); }
//@ time=200 | 4-node quadrilateral, all coordinates symbolic
VC_ENTRY quad4_geom(){ hom<ShapeFunction4Square>("quad4",1,0,false); }
//@ time=200 | 3-node triangle, all coordinates symbolic
VC_ENTRY tri3_geom(){ hom<ShapeFunction3Triangle>("tri3",1,0,true); }
//@ time=200 | 8-node quadrilateral, scaled curved shape
VC_ENTRY quad8(){ hom<ShapeFunction8Square>("quad8",2,0,false); }
static void bbar(int sym,int mode){ DM X=geom("quad4",sym); EL el=mkel(X); int n=4; rule<RuleA>(2,"A",mode); rule<RuleB>(2,"B",mode); auto gd=gps<ShapeFunction4Square,RuleA>(X),gv=gps<ShapeFunction4Square,RuleB>(X); double t=coeft("t",0.001,100),a=vc_real("Da",1,3),b=vc_real("Db",-1,1),c=vc_real("Dc",0.25,2); DM D{{a,b,0.0},{b,a,0.0},{0.0,0.0,c}}; std::vector<int> dl{3,1}; Matrix<double> K; NE ne; PlaneStiffnessBbar<double,ShapeFunction4Square,RuleB,RuleA>(K,ne,el.e,dl,el.x,tom(D),t); vc_reach("bbar"); if(!shape(K,8,8,"B-bar")) return; RW r=rows(ne,n,dl,8,"B-bar");
    cmpK(K,r,r,[&](int p,int i,int q,int j){ double s=0; for(auto&g:gv) s+=(a+b)/2*g.d[p][i]*g.d[q][j]*g.J*g.w*t; for(auto&g:gd){ double dv=(a-b)/2*(i==j?1.0:-1.0)*g.d[p][i]*g.d[q][j], sh=c*g.d[p][1-i]*g.d[q][1-j]; s+=(dv+sh)*g.J*g.w*t; } return s; },"B-bar"); }
//@ time=200 | B-bar with a square-symmetric elasticity matrix: volumetric part by one rule, deviatoric part by the other; symbolic rules
VC_ENTRY bbar_point(){ bbar(0,1); }
//@ time=200 | B-bar, symbolic quadrilateral
VC_ENTRY bbar_geom(){ bbar(1,0); }
//@ time=300 | Wilson-Taylor with a given elasticity matrix: static condensation of the incompatible modes, scaled quadrilateral, symbolic t and scale, fixed full D
VC_ENTRY wilson(){ DM X=geom("quad4",2); EL el=mkel(X); int n=4; rule<RuleC>(2,"C",0,false,false); RuleC<double>::Points[0](0)=0.5; RuleC<double>::Points[0](1)=0.5; RuleC<double>::Points[1](0)=-0.75; RuleC<double>::Points[1](1)=0.25; double t=coeft("t",0.001,100); DM D{{2,0.5,0.25},{0.5,1.5,-0.25},{0.25,-0.25,0.75}}; std::vector<int> dl{1,0}; Matrix<double> K; NE ne; PlaneStiffnessWilsonTaylor<double,ShapeFunction4Square,RuleC>(K,ne,el.e,dl,el.x,tom(D),t); vc_reach("wilson"); if(!shape(K,8,8,"wilson")) return; RW r=rows(ne,n,dl,8,"wilson"); auto gp=gps<ShapeFunction4Square,RuleC>(X);
    for(size_t q=0;q<gp.size();q++){ Vector<double> p=RuleC<double>::Points[q],p2=p; Matrix<double> Dr=ShapeFunction4Square<double>::dNdr(p2); DM jac(2,DV(2,0.0)); for(int k=0;k<2;k++) for(int i=0;i<2;i++) for(int a=0;a<4;a++) jac[k][i]+=Dr(k,a)*X[a][i]; double det; DM ij=inv_adj(jac,det); for(int m=0;m<2;m++){ double dr[2]={0,0}; dr[m]=-2*p(m); gp[q].d.push_back(DV{ij[0][0]*dr[0]+ij[0][1]*dr[1],ij[1][0]*dr[0]+ij[1][1]*dr[1]}); } }
    auto k=[&](int a,int i,int b,int j){ double s=0; for(auto&g:gp) for(int I=0;I<3;I++) for(int Q=0;Q<3;Q++) s+=Bv(g.d,I,a,i)*D[I][Q]*Bv(g.d,Q,b,j)*g.J*g.w*t; return s; };
    DM A(4,DV(12)); for(int p=0;p<4;p++){ for(int q=0;q<4;q++) A[p][q]=k(4+p/2,p%2,4+q/2,q%2); for(int q=0;q<8;q++) A[p][4+q]=k(4+p/2,p%2,q/2,q%2); } for(int c=0;c<4;c++) for(int p=0;p<4;p++) if(p!=c){ double f=A[p][c]/A[c][c]; for(int q=c;q<12;q++) A[p][q]-=f*A[c][q]; }
    cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=k(a,i,b,j); for(int p=0;p<4;p++) s-=k(a,i,4+p/2,p%2)*A[p][4+2*b+j]/A[p][p]; return s; },"Wilson-Taylor"); }
//@ time=200 jobs=2 | units: modulus times 10^-7 or 10^9, thickness times 10^-6 or 10^6
VC_ENTRY units_quad4(){ units(); hom<ShapeFunction4Square>("quad4",0,1,false); }
