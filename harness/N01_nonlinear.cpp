// Geometrically nonlinear elements: the residual is minus the internal force of the hyperelastic energy, the tangent its exact derivative.
#include "fem.h"
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/Solid.h"
static DM defgrad(const GP&g,const DM&u,int d){ DM F(d,DV(d,0.0)); for(int i=0;i<d;i++) for(int j=0;j<d;j++){ F[i][j]=i==j?1.0:0.0; for(size_t a=0;a<u.size();a++) F[i][j]+=u[a][i]*g.d[a][j]; } return F; }
// large homogeneous deformation added to the nodal displacements: 1 strong compression with shear, 2 strong expansion with rotation
static int&g_big(){ static int b=0; return b; }
static void bigdef(DM&u,const DM&X){ static const double M[2][3][3]={{{-0.5,0.25,0.125},{0,-0.375,0.125},{0.125,0,-0.25}},{{0.75,-1,0.25},{1.25,0.5,0},{0,0.25,1}}}; if(g_big()) for(size_t a=0;a<u.size();a++) for(size_t i=0;i<u[a].size();i++) for(size_t j=0;j<u[a].size();j++) u[a][i]+=M[g_big()-1][i][j]*X[a][j]; }
// displacement: fixed part + symbolic part
static DM disp(int n,int d,int nsym,double amp,const char*nm="u"){ static const double f[8][3]={{0.0625,-0.03125,0.03125},{0.125,0.0625,-0.0625},{0.1875,-0.0625,0.0625},{-0.0625,0.09375,0.125},{0.03125,0.125,-0.03125},{0.0625,0.0,0.09375},{-0.03125,0.0625,0.0},{0.0,-0.125,0.0625}}; DM u(n,DV(d)); int c=0; for(int i=0;i<n;i++) for(int k=0;k<d;k++){ u[i][k]= c<nsym? vc_real(vc_nm(nm,i,k),-amp,amp): f[i][k]; c++; } return u; }
template<template<class>class SF,class CALL> static void svk(const char*kind,int sym,int mode,bool simplex,int d,int nsym,bool symw,bool symE,CALL call){
    DM X=geom(kind,sym); EL el=mkel(X); int n=X.size(); rule<RuleA>(d,"A",mode,simplex,symw); auto gp=gps<SF,RuleA>(X); double E=symE?coef("E",0.01,50):1.5,V=symE?vc_real("V",-0.75,0.49):0.25,t=d==2?coeft("t",0.01,10):1.0; double lam=E*V/((1+V)*(1-2*V)),mu=E/(2*(1+V)); DM u=disp(n,d,nsym,1.0); if(sym==2) for(auto&q:u) for(auto&c:q) c*=g_scale(); bigdef(u,X); VX us=spread(el,u); std::vector<int> dl= d==2?std::vector<int>{3,1}:std::vector<int>{2,0,4}; Matrix<double> K; Vector<double> Q; NE ne; call(K,Q,ne,el,dl,us,E,V,t); vc_reach("tl"); if(!shape(K,d*n,d*n,"total Lagrange")) return; RW r=rows(ne,n,dl,d*n,"total Lagrange"); vc_true(Q.SIZE()==d*n,"total Lagrange: residual size"); if(Q.SIZE()!=d*n) return;
    std::vector<DM> Fs,Ss; for(auto&g:gp){ DM F=defgrad(g,u,d); DM Eg(d,DV(d)),S(d,DV(d)); double tr=0; for(int i=0;i<d;i++) for(int j=0;j<d;j++){ double s=0; for(int k=0;k<d;k++) s+=F[k][i]*F[k][j]; Eg[i][j]=0.5*(s-(i==j?1.0:0.0)); } for(int i=0;i<d;i++) tr+=Eg[i][i]; for(int i=0;i<d;i++) for(int j=0;j<d;j++) S[i][j]=2*mu*Eg[i][j]+(i==j?lam*tr:0.0); Fs.push_back(F); Ss.push_back(S); }
    cmpF(Q,r,[&](int a,int i){ double s=0; for(size_t q=0;q<gp.size();q++) for(int J=0;J<d;J++) for(int L=0;L<d;L++) s-=Fs[q][i][L]*Ss[q][L][J]*gp[q].d[a][J]*gp[q].J*gp[q].w*t; return s; },"residual is minus the internal force");
    cmpK(K,r,r,[&](int a,int i,int b,int k){ double s=0; for(size_t q=0;q<gp.size();q++){ auto&g=gp[q]; auto&F=Fs[q]; double Ga=0,Gb=0,GG=0,Gik=0,BB=0; for(int J=0;J<d;J++){ Ga+=F[i][J]*g.d[a][J]; Gb+=F[k][J]*g.d[b][J]; GG+=g.d[a][J]*g.d[b][J]; for(int L=0;L<d;L++) BB+=g.d[a][J]*Ss[q][J][L]*g.d[b][L]; } double x1=0,x2=0; for(int J=0;J<d;J++){ Gik+=F[i][J]*F[k][J]; x1+=F[i][J]*g.d[b][J]; x2+=F[k][J]*g.d[a][J]; } s+=(lam*Ga*Gb+mu*(Gik*GG+x1*x2)+(i==k?BB:0.0))*g.J*g.w*t; } return s; },"tangent is the derivative of the internal force"); }
#define TL2(SF) [&](Matrix<double>&K,Vector<double>&Q,NE&ne,EL&el,std::vector<int>&dl,VX&us,double E,double V,double t){ PlaneStrainStiffnessTotalLagrange<double,SF,RuleA>(K,Q,ne,el.e,dl,el.x,us,E,V,t); }
#define TL3(SF) [&](Matrix<double>&K,Vector<double>&Q,NE&ne,EL&el,std::vector<int>&dl,VX&us,double E,double V,double t){ SolidTotalLagrange<double,SF,RuleA>(K,Q,ne,el.e,dl,el.x,us,E,V); }
//@ time=300 | plane-strain total Lagrange, 3-node triangle with all coordinates and displacements symbolic, symbolic E, nu, t
VC_ENTRY tl2_tri3(){ svk<ShapeFunction3Triangle>("tri3",1,0,true,2,6,false,true,TL2(ShapeFunction3Triangle)); }
//@ time=300 | plane-strain total Lagrange, 4-node quadrilateral, fixed shape, symbolic point, weights, displacements, E, nu, t
VC_ENTRY tl2_quad4(){ svk<ShapeFunction4Square>("quad4",0,1,false,2,8,true,true,TL2(ShapeFunction4Square)); }
//@ time=300 | plane-strain total Lagrange, 8-node quadrilateral, scaled curved shape, 6 symbolic displacements
VC_ENTRY tl2_quad8(){ svk<ShapeFunction8Square>("quad8",2,0,false,2,6,true,true,TL2(ShapeFunction8Square)); }
//@ time=300 | solid total Lagrange, 4-node tetrahedron, all displacements symbolic, scaled shape, symbolic E, nu
VC_ENTRY tl3_tet4(){ svk<ShapeFunction4Tetrahedron>("tet4",2,0,true,3,12,true,true,TL3(ShapeFunction4Tetrahedron)); }
//@ time=400 | solid total Lagrange, 8-node hexahedron, scaled shape, 6 symbolic displacements, symbolic E, nu and weights
VC_ENTRY tl3_hex8(){ svk<ShapeFunction8Cubic>("hex8",2,0,false,3,6,true,true,TL3(ShapeFunction8Cubic)); }
template<template<class>class SF,class CALL> static void nh(const char*kind,int sym,int mode,bool simplex,int d,int nsym,bool symw,CALL call){
    DM X=geom(kind,sym); EL el=mkel(X); int n=X.size(); rule<Rule1>(d,"A",mode,simplex,symw); auto gp=gps<SF,Rule1>(X); double E=coef("E",0.01,50),V=vc_real("V",-0.75,0.49),t=d==2?coeft("t",0.01,10):1.0; double mu=E/(2*(1+V)),lam=2*mu*V/(1-2*V); DM u=disp(n,d,nsym,0.125); if(sym==2) for(auto&q:u) for(auto&c:q) c*=g_scale(); bigdef(u,X); VX us=spread(el,u); std::vector<int> dl= d==2?std::vector<int>{3,1}:std::vector<int>{2,0,4}; Matrix<double> K; Vector<double> Q; NE ne; call(K,Q,ne,el,dl,us,E,V,t); vc_reach("ul"); if(!shape(K,d*n,d*n,"updated Lagrange")) return; RW r=rows(ne,n,dl,d*n,"updated Lagrange"); vc_true(Q.SIZE()==d*n,"updated Lagrange: residual size"); if(Q.SIZE()!=d*n) return;
    // current configuration: Kirchhoff stress tau = mu (F F^T - 1) + lam ln J, spatial gradients
    DM xc(n,DV(d)); for(int a=0;a<n;a++) for(int k=0;k<d;k++) xc[a][k]=X[a][k]+u[a][k]; auto gc=gps<SF,Rule1>(xc); int nq=gp.size(); std::vector<DM> ta; DV ljs,ws; for(int q=0;q<nq;q++){ DM F=defgrad(gp[q],u,d); double dF=det_leibniz(F),lj=std::log(dF); DM tau(d,DV(d)); for(int i=0;i<d;i++) for(int j=0;j<d;j++){ double s=0; for(int k=0;k<d;k++) s+=F[i][k]*F[j][k]; tau[i][j]=mu*(s-(i==j?1.0:0.0))+(i==j?lam*lj:0.0); } ta.push_back(tau); ljs.push_back(lj); ws.push_back(gp[q].J*gp[q].w*t); }
    cmpF(Q,r,[&](int a,int i){ double s=0; for(int q=0;q<nq;q++) for(int j=0;j<d;j++) s-=ta[q][i][j]*gc[q].d[a][j]*ws[q]; return s; },"residual is minus the internal force");
    cmpK(K,r,r,[&](int a,int i,int b,int k){ double z=0; for(int q=0;q<nq;q++){ auto&g=gc[q]; auto&tau=ta[q]; double m=mu-lam*ljs[q],s=lam*g.d[a][i]*g.d[b][k]+m*g.d[a][k]*g.d[b][i]; if(i==k){ double gg=0,tt=0; for(int j=0;j<d;j++){ gg+=g.d[a][j]*g.d[b][j]; for(int l=0;l<d;l++) tt+=g.d[a][j]*tau[j][l]*g.d[b][l]; } s+=m*gg+tt; } z+=s*ws[q]; } return z; },"tangent is the derivative of the internal force"); }
#define UL2(SF) [&](Matrix<double>&K,Vector<double>&Q,NE&ne,EL&el,std::vector<int>&dl,VX&us,double E,double V,double t){ PlaneStrainStiffnessUpdatedLagrange<double,SF,Rule1>(K,Q,ne,el.e,dl,el.x,us,E,V,t); }
#define UL3(SF) [&](Matrix<double>&K,Vector<double>&Q,NE&ne,EL&el,std::vector<int>&dl,VX&us,double E,double V,double t){ SolidUpdatedLagrange<double,SF,Rule1>(K,Q,ne,el.e,dl,el.x,us,E,V); }
//@ time=300 | plane-strain updated Lagrange (neo-Hookean), 3-node triangle, all displacements symbolic, symbolic E, nu, t
VC_ENTRY ul2_tri3(){ nh<ShapeFunction3Triangle>("tri3",0,0,true,2,6,true,UL2(ShapeFunction3Triangle)); }
//@ time=300 | plane-strain updated Lagrange, 4-node quadrilateral, 4 symbolic displacements, symbolic weights
VC_ENTRY ul2_quad4(){ nh<ShapeFunction4Square>("quad4",0,0,false,2,4,true,UL2(ShapeFunction4Square)); }
//@ time=300 | plane-strain updated Lagrange, 4-node quadrilateral, symbolic integration point
VC_ENTRY ul2_quad4_point(){ nh<ShapeFunction4Square>("quad4",0,1,false,2,0,true,UL2(ShapeFunction4Square)); }
//@ time=400 | solid updated Lagrange, 4-node tetrahedron, 3 symbolic displacements, symbolic E, nu
VC_ENTRY ul3_tet4(){ nh<ShapeFunction4Tetrahedron>("tet4",0,0,true,3,3,true,UL3(ShapeFunction4Tetrahedron)); }
//@ time=400 | solid updated Lagrange, 8-node hexahedron, 2 symbolic displacements, symbolic E, nu, weights
VC_ENTRY ul3_hex8(){ nh<ShapeFunction8Cubic>("hex8",0,0,false,3,2,true,UL3(ShapeFunction8Cubic)); }
template<template<class>class SF> static void press(const char*kind){ DM X=geom(kind,1); EL el=mkel(X); int n=X.size(); rule<RuleA>(1,"A",1); DM u=disp(n,2,2*n,1.0); VX us=spread(el,u); double P=vc_real("P",-2,2),t=coeft("t",0.01,10); std::vector<int> dl{2,0}; Matrix<double> K; Vector<double> Q; NE ne; PlaneStrainSurfacePressureUpdatedLagrange<double,SF,RuleA>(K,Q,ne,el.e,dl,el.x,us,P,t); vc_reach("pressure"); if(!shape(K,2*n,2*n,"pressure")) return; RW r=rows(ne,n,dl,2*n,"pressure");
    DM N,D; for(int g=0;g<RuleA<double>::N;g++){ Vector<double> p=RuleA<double>::Points[g],p2=p; Vector<double> nn=SF<double>::N(p); Matrix<double> dd=SF<double>::dNdr(p2); DV a(n),b(n); for(int i=0;i<n;i++){ a[i]=nn(i); b[i]=dd(0,i); } N.push_back(a); D.push_back(b); }
    cmpF(Q,r,[&](int a,int i){ double s=0; for(int g=0;g<RuleA<double>::N;g++){ double tx=0,ty=0; for(int b=0;b<n;b++){ tx+=D[g][b]*(X[b][0]+u[b][0]); ty+=D[g][b]*(X[b][1]+u[b][1]); } s+=P*t*N[g][a]*(i==0?-ty:tx)*RuleA<double>::Weights[g][0]; } return s; },"pressure follows the normal of the deformed edge");
    // tangent = symmetric part of -dF/du: 0.5*(A + A^T) with A = -dF/du
    cmpK(K,r,r,[&](int a,int i,int b,int k){ double s=0; for(int g=0;g<RuleA<double>::N;g++){ double w=P*t*RuleA<double>::Weights[g][0]; auto A=[&](int a,int i,int b,int k){ if(i==k) return 0.0; return (i==0?1.0:-1.0)*N[g][a]*D[g][b]*w; }; s+=0.5*(A(a,i,b,k)+A(b,k,a,i)); } return s; },"pressure tangent is the symmetrised derivative"); }
//@ time=200 | follower pressure, 2-node edge, all coordinates, displacements, point, weights, P and t symbolic
VC_ENTRY pressure2(){ press<ShapeFunction2Line>("line2"); }
//@ time=200 | follower pressure, 3-node edge
VC_ENTRY pressure3(){ press<ShapeFunction3Line>("line3"); }
//@ time=200 jobs=2 | units: modulus times 10^-7 or 10^9, thickness times 10^-6 or 10^6: total Lagrange triangle
VC_ENTRY units_tl2(){ units(); svk<ShapeFunction3Triangle>("tri3",0,0,true,2,6,false,true,TL2(ShapeFunction3Triangle)); }
//@ time=200 jobs=2 | units: updated Lagrange triangle
VC_ENTRY units_ul2(){ units(); nh<ShapeFunction3Triangle>("tri3",0,0,true,2,6,true,UL2(ShapeFunction3Triangle)); }
//@ time=200 jobs=2 | units: total Lagrange tetrahedron
VC_ENTRY units_tl3(){ units(false); svk<ShapeFunction4Tetrahedron>("tet4",0,0,true,3,6,true,true,TL3(ShapeFunction4Tetrahedron)); }
