// Scalar transport with a nine-point rule; small and large elements.
#define RULEA_N 9
#define RULE1_N 8
#define RULEB_N 3
#include "P04_transport.cpp"
//@ time=300 | all non-stabilised scalar matrices with nine points: 4-node quadrilateral, scaled irregular shape (10^-7..10^5)
VC_ENTRY many_quad4(){ all<ShapeFunction4Square>("quad4",2,0,false); }
//@ time=300 | nine points: 3-node triangle, scaled
VC_ENTRY many_tri3(){ all<ShapeFunction3Triangle>("tri3",2,0,true); }
//@ time=300 | flux with nine points on a scaled curved 3-node edge
VC_ENTRY many_flux(){ flux<ShapeFunction3Line>("line3",2,0); }
