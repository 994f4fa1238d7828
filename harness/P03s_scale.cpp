// Shells and beams: thickness and element size over many orders of magnitude.
#include "P03_beamshell.cpp"
static DM scaled(DM X){ double s=vc_real("scale",1e-4,1e4); g_scale()=s; for(auto&p:X) for(auto&c:p) c*=s; return X; }
//@ time=300 | 6-dof shell, plane quadrilateral, thickness 10^-6..0.5
VC_ENTRY thin_shell6(){ shell<ShapeFunction4Square>(plane(),0,true,1); }
//@ time=300 | 5-dof shell, plane quadrilateral with the size and the thickness scaled together (10^-4..10^4)
VC_ENTRY size_shell5(){ shell<ShapeFunction4Square>(scaled(plane()),0,false,3); }
//@ time=300 | 6-dof shell, size and thickness scaled together
VC_ENTRY size_shell6(){ shell<ShapeFunction4Square>(scaled(plane()),0,true,3); }
//@ time=300 | 2-node beam, length and section scaled together
VC_ENTRY size_beam(){ beam<ShapeFunction2Line>(scaled(bx2()),{{0,3,4},{0,3,4}},{{0,-4,3},{0,-4,3}},0,3); }
