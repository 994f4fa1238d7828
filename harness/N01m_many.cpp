// Nonlinear elements with many-point rules.
#define RULEA_N 9
#define RULE1_N 8
#define RULEB_N 3
#include "N01_nonlinear.cpp"
//@ time=400 | plane-strain total Lagrange, nine points, 4-node quadrilateral, scaled shape, 4 symbolic displacements
VC_ENTRY many_tl2(){ svk<ShapeFunction4Square>("quad4",2,0,false,2,4,false,true,TL2(ShapeFunction4Square)); }
//@ time=400 | solid total Lagrange, nine points, 4-node tetrahedron, scaled shape, 3 symbolic displacements
VC_ENTRY many_tl3(){ svk<ShapeFunction4Tetrahedron>("tet4",2,0,true,3,3,false,true,TL3(ShapeFunction4Tetrahedron)); }
//@ time=400 | plane-strain updated Lagrange, eight points, scaled 4-node quadrilateral, fixed displacements, symbolic E, nu, t
VC_ENTRY many_ul2(){ nh<ShapeFunction4Square>("quad4",2,0,false,2,0,false,UL2(ShapeFunction4Square)); }
//@ time=400 | solid updated Lagrange, eight points, scaled 8-node hexahedron, fixed displacements, symbolic E, nu
VC_ENTRY many_ul3(){ nh<ShapeFunction8Cubic>("hex8",2,0,false,3,0,false,UL3(ShapeFunction8Cubic)); }
//@ time=400 | plane-strain updated and total Lagrange under a large homogeneous deformation (strong compression, strong expansion with rotation), 3-node triangle, small symbolic displacements
VC_ENTRY large_ul2(){ g_big()=vc_choose("deformation",1,2); nh<ShapeFunction3Triangle>("tri3",0,0,true,2,1,false,UL2(ShapeFunction3Triangle)); }
//@ time=400 | plane-strain total Lagrange under a large deformation, 4-node quadrilateral
VC_ENTRY large_tl2(){ g_big()=vc_choose("deformation",1,2); svk<ShapeFunction4Square>("quad4",0,0,false,2,2,false,true,TL2(ShapeFunction4Square)); }
//@ time=400 | solid updated Lagrange under a large deformation, 4-node tetrahedron
VC_ENTRY large_ul3(){ g_big()=vc_choose("deformation",1,2); nh<ShapeFunction4Tetrahedron>("tet4",0,0,true,3,1,false,UL3(ShapeFunction4Tetrahedron)); }
