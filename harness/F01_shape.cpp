// Interpolation functions: for every local coordinate, partition of unity, nodal interpolation, completeness, and derivatives that are the exact derivatives.
#include "common.h"
#include "FEM/Controller/ShapeFunction.h"
template<template<class>class SF> static void shape(const char*nm,int order,bool tri){
    const int d=SF<double>::d,n=SF<double>::n; std::string L(nm);
    vc_true((int)SF<double>::Points.size()==n,L+" number of node points"); if((int)SF<double>::Points.size()!=n) return;
    DV r=symv("r",d,-1,1); Vector<double> N=SF<double>::N(tov(r)); Matrix<double> D=SF<double>::dNdr(tov(r)); vc_reach("shape");
    vc_true(N.SIZE()==n&&D.ROW()==d&&D.COL()==n,L+" sizes"); double s=0; for(int i=0;i<n;i++) s+=N(i); vc_eq(s,1,TOL,L+" partition of unity");
    for(int k=0;k<d;k++){ double t=0; for(int i=0;i<n;i++) t+=D(k,i); vc_eq(t,0,TOL,L+" derivatives sum to zero"); }
    // completeness: polynomials up to the element order are reproduced
    for(int a=0;a<d;a++){ double t=0; for(int i=0;i<n;i++){ Vector<double> P=SF<double>::Points[i]; t+=N(i)*P(a); } vc_eq(t,r[a],TOL,L+" reproduces coordinates");
        if(order>=2) for(int b=a;b<d;b++){ double q=0; for(int i=0;i<n;i++){ Vector<double> P=SF<double>::Points[i]; q+=N(i)*P(a)*P(b); } vc_eq(q,r[a]*r[b],TOL,L+" reproduces quadratics"); } }
    // Kronecker property
    for(int j=0;j<n;j++){ Vector<double> M=SF<double>::N(SF<double>::Points[j]); for(int i=0;i<n;i++) vc_eq(M(i),i==j?1:0,TOL,L+" Kronecker delta"); }
    // node points lie in the reference cell
    for(int j=0;j<n;j++){ Vector<double> P=SF<double>::Points[j]; double q=0; for(int a=0;a<d;a++){ vc_le(P(a),1,0,L+" node in cell"); vc_le(tri?0:-1,P(a),0,L+" node in cell"); q+=P(a); } if(tri) vc_le(q,1,0,L+" node in cell"); }
    // derivative: five point stencil is exact for degree <= 4
    for(int k=0;k<d;k++){ auto at=[&](double h){ DV q=r; q[k]+=h; return SF<double>::N(tov(q)); }; Vector<double> A=at(-2),B=at(-1),C=at(1),E=at(2); for(int i=0;i<n;i++) vc_eq(D(k,i),(A(i)-8*B(i)+8*C(i)-E(i))/12,TOL,L+" exact derivative"); }
}
//@ time=60 | 2-node line, all r in [-1,1]
VC_ENTRY line2(){ shape<ShapeFunction2Line>("line2",1,false); }
//@ time=60 | 3-node line
VC_ENTRY line3(){ shape<ShapeFunction3Line>("line3",2,false); }
//@ time=60 | 3-node triangle
VC_ENTRY tri3(){ shape<ShapeFunction3Triangle>("tri3",1,true); }
//@ time=60 | 6-node triangle
VC_ENTRY tri6(){ shape<ShapeFunction6Triangle>("tri6",2,true); }
//@ time=60 | 4-node square
VC_ENTRY quad4(){ shape<ShapeFunction4Square>("quad4",1,false); }
//@ time=60 | 8-node square
VC_ENTRY quad8(){ shape<ShapeFunction8Square>("quad8",2,false); }
//@ time=60 | 4-node tetrahedron
VC_ENTRY tet4(){ shape<ShapeFunction4Tetrahedron>("tet4",1,true); }
//@ time=60 | 8-node cube
VC_ENTRY hex8(){ shape<ShapeFunction8Cubic>("hex8",1,false); }
//@ time=100 | 20-node cube
VC_ENTRY hex20(){ shape<ShapeFunction20Cubic>("hex20",2,false); }
