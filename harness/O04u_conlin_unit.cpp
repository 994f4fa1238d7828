// CONLIN, white box: residual norm of the perturbed KKT system and the small dense solver.
#include "opt.h"
#define SOLVER CONLIN
#define SOLVER_H "Optimize/Solver/CONLIN.h"
#include "optu.h"
//@ time=200 | KKT residual, n=2 m=1, every multiplier and coefficient symbolic
VC_ENTRY kkt21(){ kkt(2,1,false); }
//@ time=200 | KKT residual, n=1 m=2, symbolic x as well
VC_ENTRY kkt12(){ kkt(1,2,true); }
//@ time=100 | dense solve with pivoting, every 2x2 system
VC_ENTRY solve2(){ sol(2,true); }
//@ time=200 | dense solve with pivoting, every 3x3 system
VC_ENTRY solve3(){ sol(3,true); }
