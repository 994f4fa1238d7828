// Flow elements with many-point rules; small and large elements.
#define RULEA_N 9
#define RULE1_N 8
#define RULEB_N 3
#include "P05_flow.cpp"
//@ time=300 | 8-node velocity / 4-node pressure quadrilateral, nine points, scaled shape (10^-7..10^5), symbolic state coefficients
VC_ENTRY many_quad(){ direct<ShapeFunction8Square,ShapeFunction4Square>("quad4",2,4,0,false,false); }
//@ time=300 | quadratic/linear triangle, nine points, scaled
VC_ENTRY many_tri(){ direct<ShapeFunction6Triangle,ShapeFunction3Triangle>("tri3",2,3,0,true,false); }
//@ time=300 | SUPG/PSPG terms at zero velocity, eight points
VC_ENTRY many_supg_zero(){ supg<ShapeFunction4Square>("quad4",false,1); }
//@ time=300 | decoupled method, nine points, 4-node quadrilateral, scaled
VC_ENTRY many_decoupled(){ decoupled<ShapeFunction4Square>("quad4",2,0,false); }
