// Plane stress and solid with many-point rules; small and large elements and members.
#define RULEA_N 9
#define RULE1_N 8
#define RULEB_N 3
#include "P02_solid.cpp"
//@ time=300 | plane stress, nine fixed points: 8-node quadrilateral, scaled curved shape (10^-7..10^5), symbolic material, load
VC_ENTRY many_quad8(){ pstress<ShapeFunction8Square>("quad8",2,0,false); }
//@ time=300 | plane stress, nine fixed points: 3-node triangle
VC_ENTRY many_tri3(){ pstress<ShapeFunction3Triangle>("tri3",2,0,true); }
//@ time=300 | solid, eight fixed points: 8-node hexahedron, scaled irregular shape, symbolic E, nu
VC_ENTRY many_hex8(){ solid<ShapeFunction8Cubic>("hex8",2,0,false,true); }
//@ time=300 | solid, eight fixed points: 4-node tetrahedron, scaled
VC_ENTRY many_tet4(){ solid<ShapeFunction4Tetrahedron>("tet4",2,0,true,true); }
//@ time=300 | plane stress tractions with nine points on a scaled curved 3-node edge
VC_ENTRY many_surface(){ pssurf<ShapeFunction3Line>("line3",2,0); }
//@ time=100 | truss members of length 10^-6..10^6 in eleven directions (axes, both diagonals, steep, flat, reversed): stiffness relative to EA/l
VC_ENTRY truss_scale(){ static const double q[11][3]={{1,0,1},{-1,0,1},{0,1,1},{0,-1,1},{3,4,5},{-3,4,5},{3,-4,5},{-4,-3,5},{5,12,13},{-24,7,25},{7,-24,25}}; int k=vc_choose("dir",0,10); double s=vc_real("s",1e-6,1e6),E=vc_real("E",1e-3,1e12),A=vc_real("A",1e-6,1e3); double ox=vc_real("ox",-1,1),oy=vc_real("oy",-1,1); DM X{{ox*s,oy*s},{ox*s+s*q[k][0],oy*s+s*q[k][1]}}; EL el=mkel(X); Matrix<double> K; NE ne; std::vector<int> dl{3,1}; Truss2D<double>(K,ne,el.e,dl,el.x,E,A); vc_reach("truss"); if(!shape(K,4,4,"truss")) return; RW r=rows(ne,2,dl,4,"truss"); double c[2]={q[k][0]/q[k][2],q[k][1]/q[k][2]}; K=K*(s*q[k][2]/(E*A)); cmpK(K,r,r,[&](int a,int i,int b,int j){ return (a==b?1.0:-1.0)*c[i]*c[j]; },"relative stiffness"); }
