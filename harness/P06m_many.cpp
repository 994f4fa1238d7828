// Homogenisation with a nine-point rule; small and large elements.
#define RULEA_N 9
#define RULE1_N 8
#define RULEB_N 3
#include "P06_homog.cpp"
//@ time=300 | nine points: 4-node quadrilateral, scaled irregular shape (10^-7..10^5)
VC_ENTRY many_quad4(){ hom<ShapeFunction4Square>("quad4",2,0,false); }
//@ time=300 | B-bar with nine deviatoric and three volumetric points, scaled quadrilateral
VC_ENTRY many_bbar(){ bbar(2,0); }
