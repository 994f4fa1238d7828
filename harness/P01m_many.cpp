// Plane strain with a nine-point rule (every point contributes; small and large elements).
#define RULEA_N 9
#define RULE1_N 8
#define RULEB_N 3
#include "P01_planestrain.cpp"
//@ time=300 | nine fixed integration points: 4-node quadrilateral, scaled irregular shape (10^-7..10^5), symbolic material, load
VC_ENTRY many_quad4(){ stiff<ShapeFunction4Square>("quad4",2,0,false); }
//@ time=300 | nine points: 6-node triangle, scaled curved shape
VC_ENTRY many_tri6(){ stiff<ShapeFunction6Triangle>("tri6",2,0,true); }
//@ time=300 | selective reduced integration and B-bar with nine deviatoric and three volumetric points, scaled quadrilateral
VC_ENTRY many_sri(){ sri<ShapeFunction4Square>("quad4",2,0); }
//@ time=300 | tractions with nine points on a scaled curved 3-node edge
VC_ENTRY many_surface(){ surf<ShapeFunction3Line>("line3",2,0); }
