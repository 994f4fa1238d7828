// Shells and beams with many-point rules.
#define RULEA_N 9
#define RULE1_N 8
#define RULEB_N 3
#include "P03_beamshell.cpp"
//@ time=300 | 5-dof shell, warped quadrilateral, eight in-plane and three height points; symbolic E, nu
VC_ENTRY many_shell5(){ shell<ShapeFunction4Square>(curved(),0,false,2); }
//@ time=300 | 6-dof shell, warped quadrilateral, eight in-plane and three height points; symbolic E, nu
VC_ENTRY many_shell6(){ shell<ShapeFunction4Square>(curved(),0,true,2); }
//@ time=300 | 2-node beam in space with inclined section axes, eight axial and three section points; symbolic E, nu
VC_ENTRY many_beam2(){ beam<ShapeFunction2Line>(bx2(),{{0,3,4},{0,3,4}},{{0,-4,3},{0,-4,3}},0,0); }
//@ time=300 | 3-node curved and twisted beam, eight axial and three section points; symbolic E, nu
VC_ENTRY many_beam3(){ beam<ShapeFunction3Line>(bx3(),{{0.25,1,0},{0,1,0.25},{0,1,0}},{{0,0.125,1},{0.25,0,1},{0,-0.25,1}},0,0); }
static DM rotn(DM X,int k){ DM r; for(size_t i=0;i<X.size();i++) r.push_back(X[(i+k)%X.size()]); return r; }

//@ time=300 | 5-dof shell, warped quadrilateral, every starting corner of the numbering (first edge in four directions); symbolic E, nu
VC_ENTRY start_shell5(){ shell<ShapeFunction4Square>(rotn(curved(),vc_choose("start",1,3)),0,false,2); }
//@ time=300 | 6-dof shell, warped quadrilateral, every starting corner; symbolic E, nu
VC_ENTRY start_shell6(){ shell<ShapeFunction4Square>(rotn(curved(),vc_choose("start",1,3)),0,true,2); }
