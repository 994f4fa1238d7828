// Quadrature rules integrate every polynomial up to their nominal degree exactly (coefficients symbolic), with points inside the cell and positive weights.
#include "common.h"
#include "FEM/Controller/GaussIntegration.h"
#include "FEM/Controller/NewtonCotesIntegration.h"
static double ipow(double x,int k){ double r=1; for(int i=0;i<k;i++) r*=x; return r; }
static double fact(int k){ double r=1; for(int i=2;i<=k;i++) r*=i; return r; }
// tri: simplex; deg = total degree for simplices, degree per direction otherwise
template<template<class>class IC> static void quad(const char*nm,int d,int deg,bool tri,bool pos=true){
    std::string L(nm); int N=IC<double>::N; vc_true((int)IC<double>::Points.size()==N&&(int)IC<double>::Weights.size()==N,L+" table sizes"); if((int)IC<double>::Points.size()!=N||(int)IC<double>::Weights.size()!=N) return; vc_reach("quad");
    double num=0,ex=0; int e[3]={0,0,0};
    for(e[0]=0;e[0]<=deg;e[0]++) for(e[1]=0;e[1]<=(d>1?deg:0);e[1]++) for(e[2]=0;e[2]<=(d>2?deg:0);e[2]++){
        if(tri&&e[0]+e[1]+e[2]>deg) continue; double c=vc_real(L+"c"+std::to_string(e[0])+std::to_string(e[1])+std::to_string(e[2]),-2,2),s=0;
        for(int g=0;g<N;g++){ Vector<double> P=IC<double>::Points[g]; double t=1; for(int a=0;a<d;a++) t*=IC<double>::Weights[g][a]*ipow(P(a),e[a]); s+=t; } num+=c*s;
        double x; if(tri) x=fact(e[0])*fact(e[1])*fact(e[2])/fact(e[0]+e[1]+e[2]+d); else { x=1; for(int a=0;a<d;a++) x*=e[a]%2?0.0:2.0/(e[a]+1); } ex+=c*x; }
    vc_eq(num,ex,TOL,L+" integrates all polynomials of its degree exactly");
    for(int g=0;g<N;g++){ Vector<double> P=IC<double>::Points[g]; vc_true(P.SIZE()==d&&(int)IC<double>::Weights[g].size()>=d,L+" dimensions"); double q=0; for(int a=0;a<d;a++){ vc_le(P(a),1,0,L+" point in cell"); vc_le(tri?0:-1,P(a),0,L+" point in cell"); if(pos) vc_true(IC<double>::Weights[g][a]>0,L+" positive weight"); q+=P(a); } if(tri) vc_le(q,1,0,L+" point in cell"); }
}
//@ time=60 | line rules, all polynomials of degree <= 1/3 (Gauss 1,2) and 1/3/5/7 (Newton-Cotes 1,3,5,7)
VC_ENTRY lines(){ quad<Gauss1Line>("Gauss1Line",1,1,false); quad<Gauss2Line>("Gauss2Line",1,3,false); quad<NewtonCotes1Line>("NewtonCotes1Line",1,1,false); quad<NewtonCotes3Line>("NewtonCotes3Line",1,3,false); quad<NewtonCotes5Line>("NewtonCotes5Line",1,5,false); quad<NewtonCotes7Line>("NewtonCotes7Line",1,7,false); }
//@ time=60 | triangle rules (total degree 1, 2)
VC_ENTRY tris(){ quad<Gauss1Triangle>("Gauss1Triangle",2,1,true); quad<Gauss3Triangle>("Gauss3Triangle",2,2,true); }
//@ time=60 | square rules (degree 1, 3, 5 per direction)
VC_ENTRY squares(){ quad<Gauss1Square>("Gauss1Square",2,1,false); quad<Gauss4Square>("Gauss4Square",2,3,false); quad<Gauss9Square>("Gauss9Square",2,5,false); }
//@ time=60 | tetrahedron (total degree 1) and cube rules (3, 5 per direction)
VC_ENTRY solids(){ quad<Gauss1Tetrahedron>("Gauss1Tetrahedron",3,1,true); quad<Gauss8Cubic>("Gauss8Cubic",3,3,false); quad<Gauss27Cubic>("Gauss27Cubic",3,5,false); }
