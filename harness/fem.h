// Element harness support: integration rules with symbolic points/weights, geometry, independent evaluation of gradients.
#pragma once
#include "common.h"
#include <functional>
#include "FEM/Controller/ShapeFunction.h"
#include "FEM/Controller/GaussIntegration.h"
typedef std::vector<Vector<double>> VX; typedef std::vector<std::vector<std::pair<int,int>>> NE;
#define RULE(NAME,CNT) template<class T> struct NAME{ static const int N=CNT; static std::vector<Vector<T>> Points; static std::vector<std::vector<T>> Weights; }; template<class T> std::vector<Vector<T>> NAME<T>::Points; template<class T> std::vector<std::vector<T>> NAME<T>::Weights;
#ifndef RULEA_N
#define RULEA_N 2
#define RULE1_N 1
#define RULEB_N 1
#endif
RULE(RuleA,RULEA_N) RULE(RuleB,RULEB_N) RULE(RuleC,2) RULE(Rule1,RULE1_N)
// mode 0: every point fixed (dyadic), 1: first point symbolic
template<template<class>class R> inline void rule(int d,const char*nm,int mode,bool simplex=false,bool symw=true){
    R<double>::Points.clear(); R<double>::Weights.clear(); static const double f[3][3]={{0.25,-0.5,0.375},{-0.75,0.125,0.5},{0.5,0.25,-0.25}},fs[3][3]={{0.25,0.5,0.125},{0.125,0.25,0.5},{0.5,0.125,0.25}};
    for(int g=0;g<R<double>::N;g++){ Vector<double> p(d); std::vector<double> w(d); for(int k=0;k<d;k++){ p(k)= mode==1&&g==0? vc_real(std::string(nm)+"r"+std::to_string(k),simplex?0.0:-1.0,simplex?0.5:1.0): g>=3? (simplex? ((g*5+k*3)%7+1)/32.0: ((g*7+k*5)%16-7.5)/8): simplex?fs[g][k]:f[g][k]; w[k]= symw&&g==0? vc_real(std::string(nm)+"w"+std::to_string(k),0.125,2): g>=3? 0.5+0.125*((g*3+k*2)%5): 0.5+0.25*g+0.125*k; } R<double>::Points.push_back(p); R<double>::Weights.push_back(w); } }
struct GP{ DV N; DM d; double J,w; DV x; };      // shape values, d[a][i]=dN_a/dX_i, Jacobian, product of weights, position
inline DM inv_adj(const DM&a,double&det){ int n=a.size(); det=det_leibniz(a); DM r(n,DV(n)); if(n==1){ r[0][0]=1/a[0][0]; return r; } for(int i=0;i<n;i++) for(int j=0;j<n;j++){ DM m; for(int p=0;p<n;p++) if(p!=j){ DV row; for(int q=0;q<n;q++) if(q!=i) row.push_back(a[p][q]); m.push_back(row); } double c=det_leibniz(m); r[i][j]=((i+j)%2?-c:c)/det; } return r; }
template<template<class>class SF> inline GP gauss(const DM&X,const Vector<double>&r,const std::vector<double>&w,int nw=-1){ int d=SF<double>::d,n=SF<double>::n; GP g; Vector<double> r1=r,r2=r; Vector<double> N=SF<double>::N(r1); Matrix<double> D=SF<double>::dNdr(r2); DM jac(d,DV(d,0.0)); g.N.resize(n); g.d=DM(n,DV(d,0.0)); g.x=DV(X[0].size(),0.0); for(int a=0;a<n;a++){ g.N[a]=N(a); for(size_t k=0;k<g.x.size();k++) g.x[k]+=N(a)*X[a][k]; } for(int k=0;k<d;k++) for(int i=0;i<d;i++) for(int a=0;a<n;a++) jac[k][i]+=D(k,a)*X[a][i]; DM ij=inv_adj(jac,g.J); for(int a=0;a<n;a++) for(int i=0;i<d;i++) for(int k=0;k<d;k++) g.d[a][i]+=ij[i][k]*D(k,a); g.w=1; for(int k=0;k<(nw<0?d:nw);k++) g.w*=w[k]; return g; }
template<template<class>class SF,template<class>class R> inline std::vector<GP> gps(const DM&X,int nw=-1){ std::vector<GP> v; for(int i=0;i<R<double>::N;i++) v.push_back(gauss<SF>(X,R<double>::Points[i],R<double>::Weights[i],nw)); return v; }
// element with permuted numbering inside a larger node list
struct EL{ DM X; VX x; std::vector<int> e; };
inline EL mkel(const DM&X,double dummy=7){ EL r; r.X=X; int n=X.size(); r.x.assign(n+2,Vector<double>((int)X[0].size())); for(auto&v:r.x) for(int k=0;k<v.SIZE();k++) v(k)=dummy; for(int i=0;i<n;i++){ int k=(n-i)%n+1; r.e.push_back(k); r.x[k]=tov(X[i]); } return r; }
inline VX spread(const EL&el,const DM&u){ VX r(el.x.size(),Vector<double>((int)u[0].size())); for(auto&v:r) for(int k=0;k<v.SIZE();k++) v(k)=-3; for(size_t i=0;i<el.e.size();i++) r[el.e[i]]=tov(u[i]); return r; }
// geometry: fixed irregular (sym=0) or every coordinate symbolic around a reference shape (sym=1), or fixed shape scaled by a symbolic factor (sym=2)
inline double&g_scale(){ static double s=1; return s; }
inline DM geom(const char*kind,int sym,const char*nm="x"){ std::string k=kind; DM X; double a=0.25;
    if(k=="quad4") X={{0,0},{2,0.25},{2.5,1.75},{-0.25,1.5}}; else if(k=="tri3") X={{0.25,0},{2,0.5},{0.5,1.5}}; else if(k=="tri6") X={{0,0},{2,0.25},{0.25,1.5},{1,0.25},{1.25,1},{0,0.75}}; else if(k=="quad8") X={{0,0},{2,0},{2.5,2},{-0.25,1.5},{1,-0.125},{2.375,1},{1,1.875},{0,0.75}};
    else if(k=="tet4") X={{0,0,0.25},{1.5,0.25,0},{0.25,2,0},{0.5,0.25,1.75}}; else if(k=="hex8") X={{0,0,0},{2,0,0.25},{2,1.5,0},{0,1.25,0},{0.25,0,1.5},{2.25,0,1.75},{2,1.75,1.5},{0,1.5,1.25}}; else if(k=="line2") X={{0.25,0.5},{1.75,2.5}}; else if(k=="line3") X={{0,0},{2,1},{1,0.75}}; else if(k=="line2s") X={{0,0},{0.75,1}}; 
    if(sym==1) for(size_t i=0;i<X.size();i++) for(size_t j=0;j<X[i].size();j++){ X[i][j]=vc_real(std::string(nm)+std::to_string(i)+"_"+std::to_string(j),X[i][j]-a,X[i][j]+a); }
    if(sym==2){ double s=vc_real(std::string(nm)+"scale",1e-7,1e5); g_scale()=s; for(auto&p:X) for(auto&c:p) c*=s; } return X; }
// the dof map: rows[i][k] is the element row of component k of node i; every row is used once
inline std::vector<std::vector<int>> rows(const NE&ne,int nn,const std::vector<int>&dl,int size,const std::string&l){ std::vector<std::vector<int>> r(nn,std::vector<int>(dl.size(),0)); vc_true((int)ne.size()==nn,l+": one map entry per node"); std::vector<int> hit(size,0); bool ok=(int)ne.size()==nn; for(int i=0;i<nn&&ok;i++){ if(ne[i].size()!=dl.size()) ok=false; else for(size_t k=0;k<dl.size();k++){ int f=-1; for(auto&p:ne[i]) if(p.first==dl[k]) f=p.second; if(f<0||f>=size) ok=false; else{ r[i][k]=f; hit[f]++; } } } for(int h:hit) if(h!=1) ok=false; vc_true(ok,l+": degrees of freedom map one-to-one to element rows"); return r; }
typedef std::vector<std::vector<int>> RW;
// units: material coefficients (g_cs) or thickness (g_ts) scaled by a power of ten; results are compared after dividing by it
inline double& g_cs(){ static double v=1; return v; } inline double& g_ts(){ static double v=1; return v; } inline double& g_nm(){ static double v=1; return v; }
inline double coef(const char*n,double lo,double hi){ double v=vc_real(n,lo,hi); return g_cs()==1?v:v*g_cs(); } inline double coeft(const char*n,double lo,double hi){ double v=vc_real(n,lo,hi); return g_ts()==1?v:v*g_ts(); }
inline void units(double c,double t){ g_cs()=c; g_ts()=t; g_nm()=1/(c*t); }
inline void units(bool thick=true){ switch(vc_choose("units",0,thick?3:1)){ case 0: units(1e-7,1); break; case 1: units(1e9,1); break; case 2: units(1,1e-6); break; default: units(1,1e6); } }
inline double nm(double v){ return g_nm()==1?v:v*g_nm(); }
template<class F> inline void cmpK(Matrix<double>&K,const RW&r,const RW&c,F f,const std::string&l,double tol=1e-6){ int n=r.size(),m=c.size(); for(int i=0;i<n;i++) for(int k=0;k<(int)r[i].size();k++) for(int j=0;j<m;j++) for(int q=0;q<(int)c[j].size();q++) vc_eq(nm(K(r[i][k],c[j][q])),nm(f(i,k,j,q)),tol,l+"("+std::to_string(i)+std::to_string(k)+","+std::to_string(j)+std::to_string(q)+")"); }
template<class F> inline void cmpF(Vector<double>&V,const RW&r,F f,const std::string&l,double tol=1e-6){ for(int i=0;i<(int)r.size();i++) for(int k=0;k<(int)r[i].size();k++) vc_eq(nm(V(r[i][k])),nm(f(i,k)),tol,l+"("+std::to_string(i)+std::to_string(k)+")"); }
inline bool shape(Matrix<double>&K,int n,int m,const std::string&l){ bool ok=K.ROW()==n&&K.COL()==m; vc_true(ok,l+": size"); return ok; }
inline double dotg(const GP&g,int a,int b){ double s=0; for(size_t i=0;i<g.d[a].size();i++) s+=g.d[a][i]*g.d[b][i]; return s; }
// isotropic elasticity kernel: lam N_a,i N_b,j + mu (N_a,j N_b,i + delta_ij grad N_a . grad N_b)
inline double iso(const GP&g,int a,int i,int b,int j,double lam,double mu){ return lam*g.d[a][i]*g.d[b][j]+mu*(g.d[a][j]*g.d[b][i]+(i==j?dotg(g,a,b):0.0)); }
// load functor: polynomial field with symbolic coefficients
struct Load{ DM c; Vector<double> operator()(Vector<double> x)const{ Vector<double> f((int)c.size()); for(size_t k=0;k<c.size();k++){ double s=c[k][0]; for(int i=0;i<x.SIZE();i++) s+=c[k][1+i]*x(i); f((int)k)=s; } return f; } double at(const DV&x,int k)const{ double s=c[k][0]; for(size_t i=0;i<x.size();i++) s+=c[k][1+i]*x[i]; return s; } };
inline Load load(int n,int d,const char*nm="f"){ return Load{symm(nm,n,d+1)}; }
