// Viscous flow: Stokes, Navier-Stokes (direct, SUPG/PSPG, decoupled, adjoint), Brinkman. Velocity rows use SFU, pressure and geometry SFP.
#include "fem.h"
#include "FEM/Equation/Stokes.h"
#include "FEM/Equation/NavierStokes.h"
struct G2{ DV N,M,x; DM d,D; double J,w; };      // pressure N,d ; velocity M,D
template<template<class>class SFU,template<class>class SFP,template<class>class R> static std::vector<G2> g2(const DM&Xp){ std::vector<G2> v; for(int q=0;q<R<double>::N;q++){ Vector<double> p1=R<double>::Points[q],p2=p1,p3=p1,p4=p1; GP g=gauss<SFP>(Xp,p1,R<double>::Weights[q]); Matrix<double> d=SFP<double>::dNdr(p2); Vector<double> M=SFU<double>::N(p3); Matrix<double> Dr=SFU<double>::dNdr(p4); int n=Xp.size(),m=SFU<double>::n; DM jac(2,DV(2,0.0)); for(int k=0;k<2;k++) for(int i=0;i<2;i++) for(int a=0;a<n;a++) jac[k][i]+=d(k,a)*Xp[a][i]; double det; DM ij=inv_adj(jac,det); G2 r; r.N=g.N; r.d=g.d; r.J=g.J; r.w=g.w; r.x=g.x; r.M.resize(m); r.D=DM(m,DV(2,0.0)); for(int a=0;a<m;a++){ r.M[a]=M(a); for(int i=0;i<2;i++) for(int k=0;k<2;k++) r.D[a][i]+=ij[i][k]*Dr(k,a); } v.push_back(r); } return v; }
struct FE{ EL el; DM Xp; std::vector<int> ep; int m,n; };
// straight-sided element: extra velocity nodes at the side midpoints
static FE flow(const char*kind,int sym,int mid){ DM X=geom(kind,sym); FE f; f.Xp=X; f.n=X.size(); int n=f.n; for(int i=0;i<mid;i++){ DV c(2); for(int k=0;k<2;k++) c[k]=(X[i][k]+X[(i+1)%n][k])/2; X.push_back(c); } f.m=X.size(); f.el=mkel(X); for(int i=0;i<n;i++) f.ep.push_back(f.el.e[i]); return f; }
struct RM{ RW u,p; bool ok; };
static RM rmap(const FE&f,const NE&nu,const NE&np,const std::string&l){ RM r; r.ok=true; int m=f.m,n=f.n,S=2*m+n; std::vector<int> dl{4,1,2},hit(S,0); r.u=RW(m,std::vector<int>(2,0)); r.p=RW(n,std::vector<int>(1,0)); if((int)nu.size()!=m||(int)np.size()!=n) r.ok=false; if(r.ok){ for(int i=0;i<m;i++) for(int k=0;k<2;k++){ int c=-1; for(auto&q:nu[i]) if(q.first==dl[k]) c=q.second; if(c<0||c>=S||nu[i].size()!=2) r.ok=false; else{ r.u[i][k]=c; hit[c]++; } } for(int i=0;i<n;i++){ int c=-1; for(auto&q:np[i]) if(q.first==dl[2]) c=q.second; if(c<0||c>=S||np[i].size()!=1) r.ok=false; else{ r.p[i][0]=c; hit[c]++; } } for(int h:hit) if(h!=1) r.ok=false; } vc_true(r.ok,l+": velocity and pressure degrees of freedom map one-to-one to element rows"); return r; }
typedef std::function<double(const G2&,int,int,int,int)> KF;
static double zero5(const G2&,int,int,int,int){ return 0; }
static void cmp4(Matrix<double>&K,const RM&r,const std::vector<G2>&gp,KF uu,KF up,KF pu,KF pp,const std::string&l){ auto I=[&](KF f){ return [&gp,f](int a,int i,int b,int j){ double s=0; for(auto&g:gp) s+=f(g,a,i,b,j)*g.J*g.w; return s; }; }; cmpK(K,r.u,r.u,I(uu),l+".uu"); cmpK(K,r.u,r.p,I(up),l+".up"); cmpK(K,r.p,r.u,I(pu),l+".pu"); cmpK(K,r.p,r.p,I(pp),l+".pp"); }
static bool sizeK(Matrix<double>&K,const FE&f,const std::string&l){ vc_reach(l.c_str()); return shape(K,2*f.m+f.n,2*f.m+f.n,l); }
static double visc(const G2&g,int a,int i,int b,int j,double mu){ return mu*(g.D[a][j]*g.D[b][i]+(i==j?g.D[a][0]*g.D[b][0]+g.D[a][1]*g.D[b][1]:0.0)); }
static VX fieldOf(const FE&f,const DM&u){ return spread(f.el,u); }
template<template<class>class SFU,template<class>class SFP> static void direct(const char*kind,int sym,int mid,int mode,bool simplex,bool fullu){
    FE f=flow(kind,sym,mid); rule<RuleA>(2,"A",mode,simplex,sym!=1); auto gp=g2<SFU,SFP,RuleA>(f.Xp); std::vector<int> dl{4,1,2}; double mu=coef("mu",0.01,100),rho=coef("rho",0.01,1000); Matrix<double> K; NE nu,np; RM r;
    StokesStiffness<double,SFU,SFP,RuleA>(K,nu,f.el.e,np,f.ep,dl,f.el.x,mu); if(!sizeK(K,f,"stokes")) return; r=rmap(f,nu,np,"stokes"); if(!r.ok) return;
    cmp4(K,r,gp,[&](const G2&g,int a,int i,int b,int j){ return visc(g,a,i,b,j,mu); },[&](const G2&g,int a,int i,int b,int){ return -g.D[a][i]*g.N[b]; },[&](const G2&g,int a,int,int b,int j){ return -g.N[a]*g.D[b][j]; },zero5,"stokes");
    auto mass=[&](const G2&g,int a,int i,int b,int j){ return i==j?rho*g.M[a]*g.M[b]:0.0; };
    StokesMass<double,SFU,SFP,RuleA>(K,nu,f.el.e,np,f.ep,dl,f.el.x,rho); if(!sizeK(K,f,"stokes mass")) return; r=rmap(f,nu,np,"stokes mass"); if(!r.ok) return; cmp4(K,r,gp,mass,zero5,zero5,zero5,"stokes mass");
    NavierStokesConsistentMass<double,SFU,SFP,RuleA>(K,nu,f.el.e,np,f.ep,dl,f.el.x,rho); if(!sizeK(K,f,"mass")) return; r=rmap(f,nu,np,"mass"); if(!r.ok) return; cmp4(K,r,gp,mass,zero5,zero5,zero5,"mass");
    ContinuityStiffness<double,SFU,SFP,RuleA>(K,nu,f.el.e,np,f.ep,dl,f.el.x); if(!sizeK(K,f,"continuity")) return; r=rmap(f,nu,np,"continuity"); if(!r.ok) return; cmp4(K,r,gp,zero5,[&](const G2&g,int a,int i,int b,int){ return -g.D[a][i]*g.N[b]; },[&](const G2&g,int a,int,int b,int j){ return g.N[a]*g.D[b][j]; },zero5,"continuity");
    DM kk=symm("k",2,2); auto br=[&](const G2&g,int a,int i,int b,int j){ return g.M[a]*kk[i][j]*g.M[b]; };
    BrinkmanBodyForce<double,SFU,SFP,RuleA>(K,nu,f.el.e,np,f.ep,dl,f.el.x,tom(kk)); if(!sizeK(K,f,"brinkman")) return; r=rmap(f,nu,np,"brinkman"); if(!r.ok) return; cmp4(K,r,gp,br,zero5,zero5,zero5,"brinkman");
    NavierStokesBrinkmanBodyForce<double,SFU,SFP,RuleA>(K,nu,f.el.e,np,f.ep,dl,f.el.x,tom(kk)); if(!sizeK(K,f,"ns brinkman")) return; r=rmap(f,nu,np,"ns brinkman"); if(!r.ok) return; cmp4(K,r,gp,br,zero5,zero5,zero5,"ns brinkman");
    Load ld=load(2,2); Vector<double> F; auto bf=[&](const char*l){ vc_true(F.SIZE()==2*f.m+f.n,std::string(l)+": size"); if(F.SIZE()!=2*f.m+f.n) return; RM q=rmap(f,nu,np,l); if(!q.ok) return; cmpF(F,q.u,[&](int a,int i){ double s=0; for(auto&g:gp) s+=g.M[a]*ld.at(g.x,i)*g.J*g.w; return s; },l); cmpF(F,q.p,[&](int,int){ return 0.0; },std::string(l)+".p"); };
    StokesBodyForce<double,SFU,SFP,RuleA>(F,nu,f.el.e,np,f.ep,dl,f.el.x,ld); bf("stokes body force"); NavierStokesBodyForce<double,SFU,SFP,RuleA>(F,nu,f.el.e,np,f.ep,dl,f.el.x,ld); bf("body force");
    // velocity/pressure state: fully symbolic, or an affine field with symbolic coefficients
    DM up(f.m,DV(3,0.0)); if(fullu) up=symm("u",f.m,3,-1,1); else { DM c=symm("u",3,3,-1,1); for(int i=0;i<f.m;i++) for(int k=0;k<3;k++) up[i][k]=c[k][0]+c[k][1]*f.el.X[i][0]+c[k][2]*f.el.X[i][1]*(k==1?f.el.X[i][0]:1.0); } VX us=fieldOf(f,up);
    std::vector<DV> U; std::vector<DM> dU; DV P; for(auto&g:gp){ DV a(2,0.0); DM b(2,DV(2,0.0)); double c=0; for(int i=0;i<f.m;i++) for(int k=0;k<2;k++){ a[k]+=g.M[i]*up[i][k]; for(int l=0;l<2;l++) b[k][l]+=g.D[i][l]*up[i][k]; } for(int i=0;i<f.n;i++) c+=g.N[i]*up[i][2]; U.push_back(a); dU.push_back(b); P.push_back(c); } auto ix=[&](const G2&g){ return (int)(&g-&gp[0]); };
    auto adv=[&](const G2&g,int b){ int q=ix(g); return U[q][0]*g.D[b][0]+U[q][1]*g.D[b][1]; };
    NavierStokesStiffness<double,SFU,SFP,RuleA>(K,nu,f.el.e,np,f.ep,dl,f.el.x,us,rho,mu); if(!sizeK(K,f,"ns stiffness")) return; r=rmap(f,nu,np,"ns stiffness"); if(!r.ok) return; cmp4(K,r,gp,[&](const G2&g,int a,int i,int b,int j){ return visc(g,a,i,b,j,mu)+(i==j?rho*g.M[a]*adv(g,b):0.0); },zero5,zero5,zero5,"ns stiffness");
    auto tan=[&](const G2&g,int a,int i,int b,int j){ return visc(g,a,i,b,j,mu)+(i==j?rho*g.M[a]*adv(g,b):0.0)+rho*g.M[a]*g.M[b]*dU[ix(g)][i][j]; };
    Vector<double> Fe; NavierStokesTangent<double,SFU,SFP,RuleA>(K,Fe,nu,f.el.e,np,f.ep,dl,f.el.x,us,rho,mu); if(!sizeK(K,f,"tangent")) return; r=rmap(f,nu,np,"tangent"); if(!r.ok) return; vc_true(Fe.SIZE()==2*f.m+f.n,"residual: size"); if(Fe.SIZE()!=2*f.m+f.n) return;
    cmpF(Fe,r.u,[&](int a,int i){ double s=0; for(auto&g:gp){ int q=ix(g); double v=rho*g.M[a]*(U[q][0]*dU[q][i][0]+U[q][1]*dU[q][i][1])-g.D[a][i]*P[q]; for(int l=0;l<2;l++) v+=mu*g.D[a][l]*(dU[q][i][l]+dU[q][l][i]); s-=v*g.J*g.w; } return s; },"residual.u"); cmpF(Fe,r.p,[&](int a,int){ double s=0; for(auto&g:gp){ int q=ix(g); s-=g.N[a]*(dU[q][0][0]+dU[q][1][1])*g.J*g.w; } return s; },"residual.p");
    cmp4(K,r,gp,tan,[&](const G2&g,int a,int i,int b,int){ return -g.D[a][i]*g.N[b]; },[&](const G2&g,int a,int,int b,int j){ return g.N[a]*g.D[b][j]; },zero5,"tangent");
    NavierStokesAdjoint<double,SFU,SFP,RuleA>(K,nu,f.el.e,np,f.ep,dl,f.el.x,us,rho,mu); if(!sizeK(K,f,"adjoint")) return; r=rmap(f,nu,np,"adjoint"); if(!r.ok) return; cmp4(K,r,gp,[&](const G2&g,int a,int i,int b,int j){ return tan(g,b,j,a,i); },[&](const G2&g,int a,int i,int b,int){ return -g.D[a][i]*g.N[b]; },[&](const G2&g,int a,int,int b,int j){ return g.N[a]*g.D[b][j]; },zero5,"adjoint");
}
//@ time=300 | quadratic triangle velocity / linear triangle pressure, symbolic straight-sided geometry, two fixed points, symbolic state coefficients, rho, mu, permeability, load
VC_ENTRY tri_geom(){ direct<ShapeFunction6Triangle,ShapeFunction3Triangle>("tri3",1,3,0,true,false); }
//@ time=300 | quadratic triangle velocity / linear triangle pressure, fixed geometry, all nodal velocities and pressures symbolic, symbolic point
VC_ENTRY tri_state(){ direct<ShapeFunction6Triangle,ShapeFunction3Triangle>("tri3",0,3,1,true,true); }
//@ time=300 | 8-node velocity / 4-node pressure quadrilateral, scaled irregular shape, all nodal values symbolic
VC_ENTRY quad_state(){ direct<ShapeFunction8Square,ShapeFunction4Square>("quad4",2,4,0,false,true); }
//@ time=300 | equal-order 4-node quadrilateral, symbolic geometry
VC_ENTRY quad4_geom(){ direct<ShapeFunction4Square,ShapeFunction4Square>("quad4",1,0,0,false,false); }
template<template<class>class SF> static void supg(const char*kind,bool simplex,int zerou,double V=1){
    FE f=flow(kind,0,0); rule<Rule1>(2,"A",0,simplex,true); auto gp=g2<SF,SF,Rule1>(f.Xp); std::vector<int> dl{4,1,2}; double mu=coef("mu",0.01,100),rho=1.5,dt=vc_real("dt",0.125,2); Matrix<double> K1,K2,K3; NE u1,p1,u2,p2,u3,p3; DM up(f.m,DV(2,0.0)); if(!zerou){ double a=0.75,b=-0.4375; if(V==1){ a=vc_real("ux",-2,2); b=vc_real("uy",-2,2); vc_assume_lt(0.0625,a*a+b*b); } else if(vc_choose("direction",0,1)) std::swap(a,b); if(V!=1){ a*=V; b*=V; } for(int i=0;i<f.m;i++){ up[i][0]=a; up[i][1]=b; } } VX us=fieldOf(f,up);
    NavierStokesSUPGPSPGStiffness<double,SF,SF,Rule1>(K1,u1,f.el.e,p1,f.ep,dl,f.el.x,us,rho,mu,dt); NavierStokesSUPGPSPGConsistentMass<double,SF,SF,Rule1>(K2,u2,f.el.e,p2,f.ep,dl,f.el.x,us,rho,mu,dt); ContinuitySUPGPSPGStiffness<double,SF,SF,Rule1>(K3,u3,f.el.e,p3,f.ep,dl,f.el.x,us,rho,mu,dt);
    std::vector<DV> UG; DV TA; double area=0; for(auto&g:gp) area+=g.J*g.w; auto ix=[&](const G2&g){ return (int)(&g-&gp[0]); }; for(auto&g:gp){ DV U(2,0.0); for(int i=0;i<f.m;i++) for(int k=0;k<2;k++) U[k]+=g.M[i]*up[i][k]; DV ug(f.m); double S=0; for(int i=0;i<f.m;i++){ ug[i]=U[0]*g.D[i][0]+U[1]*g.D[i][1]; S+=std::fabs(ug[i]); } double un=std::sqrt(U[0]*U[0]+U[1]*U[1]), he= zerou? std::sqrt(area) : 2*un/S; double q1=2/dt,q2=2*un/he,q3=4*mu/(rho*he*he),tau=1/std::sqrt(q1*q1+q2*q2+q3*q3); UG.push_back(ug); TA.push_back(tau); }
    RM r; if(!sizeK(K1,f,"supg stiffness")) return; r=rmap(f,u1,p1,"supg stiffness"); if(!r.ok) return; cmp4(K1,r,gp,[&](const G2&g,int a,int i,int b,int j){ const DV&ug=UG[ix(g)]; return i==j?TA[ix(g)]*rho*ug[a]*ug[b]:0.0; },zero5,[&](const G2&g,int a,int,int b,int j){ return TA[ix(g)]*rho*g.d[a][j]*UG[ix(g)][b]; },zero5,"supg stiffness");
    if(!sizeK(K2,f,"supg mass")) return; r=rmap(f,u2,p2,"supg mass"); if(!r.ok) return; cmp4(K2,r,gp,[&](const G2&g,int a,int i,int b,int j){ return i==j?TA[ix(g)]*rho*UG[ix(g)][a]*g.M[b]:0.0; },zero5,[&](const G2&g,int a,int,int b,int j){ return TA[ix(g)]*rho*g.d[a][j]*g.M[b]; },zero5,"supg mass");
    if(!sizeK(K3,f,"supg continuity")) return; r=rmap(f,u3,p3,"supg continuity"); if(!r.ok) return; cmp4(K3,r,gp,zero5,[&](const G2&g,int a,int i,int b,int){ return TA[ix(g)]*UG[ix(g)][a]*g.d[b][i]; },zero5,[&](const G2&g,int a,int,int b,int){ return TA[ix(g)]*(g.d[a][0]*g.d[b][0]+g.d[a][1]*g.d[b][1]); },"supg continuity"); }
//@ time=300 | SUPG/PSPG terms, 4-node quadrilateral, one point, symbolic uniform velocity, viscosity, time step
VC_ENTRY supg_quad(){ supg<ShapeFunction4Square>("quad4",false,0); }
//@ time=300 | SUPG/PSPG terms, 3-node triangle, one point, symbolic uniform velocity, viscosity, time step
VC_ENTRY supg_tri(){ supg<ShapeFunction3Triangle>("tri3",true,0); }
//@ time=300 | SUPG/PSPG terms at zero velocity (element size from the area)
VC_ENTRY supg_zero(){ supg<ShapeFunction4Square>("quad4",false,1); }
//@ time=300 | SUPG/PSPG terms, two directions, velocities of the order 1e-4, 1e-7, 1e4; viscosity and time step symbolic
VC_ENTRY supg_scales(){ const double v[3]={1e-4,1e-7,1e4}; supg<ShapeFunction4Square>("quad4",false,0,v[vc_choose("scale",0,2)]); }
template<template<class>class SF> static void decoupled(const char*kind,int sym,int mode,bool simplex){
    DM X=geom(kind,sym); EL el=mkel(X); int n=X.size(); rule<RuleA>(2,"A",mode,simplex,sym!=1); auto gp=gps<SF,RuleA>(X); double mu=coef("mu",0.01,100),rho=coef("rho",0.01,1000),dt=vc_real("dt",0.125,2); Matrix<double> K; NE ne; std::vector<int> dl{3,1},d1{2}; Vector<double> F; RW r;
    NavierStokesDecoupledConsistentMass<double,SF,RuleA>(K,ne,el.e,dl,el.x,rho); vc_reach("decoupled"); if(!shape(K,2*n,2*n,"consistent mass")) return; r=rows(ne,n,dl,2*n,"consistent mass"); cmpK(K,r,r,[&](int a,int i,int b,int j){ double s=0; if(i==j) for(auto&g:gp) s+=rho*g.N[a]*g.N[b]*g.J*g.w; return s; },"consistent mass");
    double A=0; for(auto&g:gp) A+=g.J*g.w; NavierStokesDecoupledLumpedMass<double,SF,RuleA>(K,ne,el.e,dl,el.x,rho); if(!shape(K,2*n,2*n,"lumped mass")) return; r=rows(ne,n,dl,2*n,"lumped mass"); cmpK(K,r,r,[&](int a,int i,int b,int j){ return a==b&&i==j?rho*A/n:0.0; },"lumped mass");
    DM u=symm("u",n,2,-1,1),p=symm("p",n,1,-1,1); VX us=spread(el,u),ps=spread(el,p);
    auto Fsz=[&](int k,const char*l){ vc_true(F.SIZE()==k,std::string(l)+": size"); return F.SIZE()==k; };
    std::vector<DV> U; std::vector<DM> dU; for(auto&g:gp){ DV a(2,0.0); DM b(2,DV(2,0.0)); for(int i=0;i<n;i++) for(int k=0;k<2;k++){ a[k]+=g.N[i]*u[i][k]; for(int l=0;l<2;l++) b[k][l]+=g.d[i][l]*u[i][k]; } U.push_back(a); dU.push_back(b); }
    NavierStokesAuxiliaryVelocity<double,SF,RuleA>(F,ne,el.e,dl,el.x,us,rho,mu); if(!Fsz(2*n,"auxiliary")) return; r=rows(ne,n,dl,2*n,"auxiliary"); cmpF(F,r,[&](int a,int i){ double s=0; for(size_t q=0;q<gp.size();q++){ auto&g=gp[q]; s-=(rho*g.N[a]*(U[q][0]*dU[q][i][0]+U[q][1]*dU[q][i][1])+mu*(g.d[a][0]*dU[q][i][0]+g.d[a][1]*dU[q][i][1]))*g.J*g.w; } return s; },"auxiliary");
    NavierStokesPressurePoisson<double,SF,RuleA>(K,F,ne,el.e,d1,el.x,us,rho,dt); if(!shape(K,n,n,"poisson")||!Fsz(n,"poisson")) return; r=rows(ne,n,d1,n,"poisson"); cmpK(K,r,r,[&](int a,int,int b,int){ double s=0; for(auto&g:gp) s+=dotg(g,a,b)*g.J*g.w; return s; },"poisson"); cmpF(F,r,[&](int a,int){ double s=0; for(size_t q=0;q<gp.size();q++) s-=rho/dt*gp[q].N[a]*(dU[q][0][0]+dU[q][1][1])*gp[q].J*gp[q].w; return s; },"poisson load");
    NavierStokesNextstepVelocity<double,SF,RuleA>(F,ne,el.e,dl,el.x,us,ps,rho); if(!Fsz(2*n,"correction")) return; r=rows(ne,n,dl,2*n,"correction"); cmpF(F,r,[&](int a,int i){ double s=0; for(auto&g:gp){ double dp=0; for(int b=0;b<n;b++) dp+=g.d[b][i]*p[b][0]; s-=g.N[a]*dp*g.J*g.w; } return s; },"correction"); }
//@ time=300 | decoupled method, 4-node quadrilateral, scaled irregular shape, all nodal values, rho, mu, dt symbolic
VC_ENTRY decoupled_quad(){ decoupled<ShapeFunction4Square>("quad4",2,0,false); }
//@ time=300 | decoupled method, 3-node triangle, symbolic geometry and nodal values
VC_ENTRY decoupled_tri(){ decoupled<ShapeFunction3Triangle>("tri3",1,0,true); }
//@ time=100 | Stokes traction on a straight edge with quadratic velocity, symbolic end points and load
VC_ENTRY surface(){ DM P=geom("line2",1); DM X=P; X.push_back({(P[0][0]+P[1][0])/2,(P[0][1]+P[1][1])/2}); FE f; f.Xp=P; f.n=2; f.m=3; f.el=mkel(X); f.ep={f.el.e[0],f.el.e[1]}; rule<RuleA>(1,"A",1); std::vector<int> dl{4,1,2}; Load ld=load(2,2); Vector<double> F; NE nu,np; StokesSurfaceForce<double,ShapeFunction3Line,ShapeFunction2Line,RuleA>(F,nu,f.el.e,np,f.ep,dl,f.el.x,ld); vc_reach("surface"); vc_true(F.SIZE()==8,"traction: size"); if(F.SIZE()!=8) return; RM r=rmap(f,nu,np,"traction"); if(!r.ok) return; double L=std::sqrt((P[1][0]-P[0][0])*(P[1][0]-P[0][0])+(P[1][1]-P[0][1])*(P[1][1]-P[0][1])); cmpF(F,r.u,[&](int a,int i){ double s=0; for(int q=0;q<RuleA<double>::N;q++){ Vector<double> p=RuleA<double>::Points[q],p2=p; Vector<double> M=ShapeFunction3Line<double>::N(p),N=ShapeFunction2Line<double>::N(p2); DV x(2); for(int k=0;k<2;k++) x[k]=N(0)*P[0][k]+N(1)*P[1][k]; s+=M(a)*ld.at(x,i)*L/2*RuleA<double>::Weights[q][0]; } return s; },"traction"); cmpF(F,r.p,[&](int,int){ return 0.0; },"traction.p"); }
