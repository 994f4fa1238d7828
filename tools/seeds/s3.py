def P(f,s,k,new):
    t=open('/repo/src/'+f,encoding='latin-1',newline='').read().replace('\r\n','\n'); p=-1
    for _ in range(k+1): p=t.index(s,p+1)
    a=p
    while t.count(t[a:p+len(s)])!=1: a=t.rfind('\n',0,a-1)
    return ["src/"+f,t[a:p+len(s)],t[a:p]+new]
H='#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <iostream>\n#include <algorithm>\n#include <numeric>\n'
SEEDS=[
dict(id="p02_truss_short", property="P02", needs="a truss member shorter than 1e-3 length units (a micro-structure in metres)",
 what_it_breaks="the length is clamped, so direction cosines and stiffness of short members are wrong",
 edits=[P("FEM/Equation/Truss.h","T l = dx.Norm();",0,"T l = std::max(dx.Norm(), T(1.0e-3));")],
 demo=H+'''#include "FEM/Equation/Truss.h"
using namespace PANSFEM2;
int main(){ std::vector<Vector<double>> x={Vector<double>({0,0}),Vector<double>({3e-4,4e-4})}; Matrix<double> K; std::vector<std::vector<std::pair<int,int>>> ne; std::vector<int> e={0,1},d={0,1}; Truss2D<double>(K,ne,e,d,x,210.0,1e-6); double k=210.0*1e-6/5e-4; if(std::fabs(K(0,0)-k*0.36)>1e-6*k||std::fabs(K(1,2)+k*0.48)>1e-6*k){ printf("K00 %g expected %g\\n",K(0,0),k*0.36); return 1; } return 0; }
'''),
dict(id="p03_beam_section_axes", property="P03", needs="a curved beam (section axes that vary along it) integrated with more than one axial point",
 what_it_breaks="the section axes are interpolated at the first integration point for all of them",
 edits=[P("FEM/Equation/Beam.h","Vector<T> N = SF<T>::N(IC0<T>::Points[g]);",0,"Vector<T> N = SF<T>::N(IC0<T>::Points[0]);")],
 demo=H+'''#include "FEM/Equation/Beam.h"
#include "FEM/Controller/ShapeFunction.h"
#include "FEM/Controller/GaussIntegration.h"
using namespace PANSFEM2;
int main(){ double r=10,a=0.2; std::vector<Vector<double>> x,v1,v2(3,Vector<double>({0,0,1})); double th[3]={-a,a,0}; for(double t:th){ x.push_back(Vector<double>({r*sin(t),r*cos(t),0})); v1.push_back(Vector<double>({sin(t),cos(t),0})); } Matrix<double> K; std::vector<std::vector<std::pair<int,int>>> ne; std::vector<int> e={0,1,2},d={0,1,2,3,4,5}; BeamLinearIsotropicElastic<double,ShapeFunction3Line,Gauss2Line,Gauss4Square>(K,ne,e,d,x,v1,v2,210.0,0.3,0.5,0.4);
 // mirror symmetry x -> -x exchanges nodes 0 and 1
 double sg[6]={-1,1,1,1,-1,-1},w=0,s=0; int m[3]={1,0,2}; for(int p=0;p<3;p++) for(int q=0;q<3;q++) for(int i=0;i<6;i++) for(int j=0;j<6;j++){ w=std::max(w,std::fabs(K(6*p+i,6*q+j)-sg[i]*sg[j]*K(6*m[p]+i,6*m[q]+j))); s=std::max(s,std::fabs(K(6*p+i,6*q+j))); } if(!(w<1e-8*s)){ printf("mirror images differ by %g of %g\\n",w,s); return 1; } return 0; }
'''),
dict(id="n01_crush_clamp", property="N01", needs="a solid element compressed to less than half its volume",
 what_it_breaks="the shear modulus of the updated-Lagrange tangent stops following the deformation, so tangent and force disagree",
 edits=[P("FEM/Equation/Solid.h","T mu = (mu0 - lambda0*log(detF))/detF;",0,"T mu = (mu0 - lambda0*log(detF > 0.5 ? detF : T(0.5)))/detF;")],
 demo=H+'''#include "FEM/Equation/Solid.h"
#include "FEM/Controller/ShapeFunction.h"
#include "FEM/Controller/GaussIntegration.h"
using namespace PANSFEM2;
typedef std::vector<std::vector<std::pair<int,int>>> NE;
int main(){ std::vector<Vector<double>> X,u; double c[8][3]={{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}}; std::vector<int> e,d={0,1,2}; for(int i=0;i<8;i++){ X.push_back(Vector<double>({c[i][0],c[i][1],c[i][2]})); u.push_back(Vector<double>({-0.3*c[i][0],-0.3*c[i][1],-0.3*c[i][2]})); e.push_back(i); }
 Matrix<double> K,K2; Vector<double> F,G; NE ne; SolidUpdatedLagrange<double,ShapeFunction8Cubic,Gauss8Cubic>(K,F,ne,e,d,X,u,100.0,0.3); double h=1e-6,worst=0,s=0; std::vector<Vector<double>> w=u; for(int j=0;j<3;j++){ w=u; w[6](j)+=h; Vector<double> a,b; SolidUpdatedLagrange<double,ShapeFunction8Cubic,Gauss8Cubic>(K2,a,ne,e,d,X,w,100.0,0.3); w=u; w[6](j)-=h; SolidUpdatedLagrange<double,ShapeFunction8Cubic,Gauss8Cubic>(K2,b,ne,e,d,X,w,100.0,0.3); for(int i=0;i<24;i++){ double fd=-(a(i)-b(i))/(2*h); worst=std::max(worst,std::fabs(fd-K(i,18+j))); s=std::max(s,std::fabs(fd)); } } if(!(worst<1e-4*s)){ printf("tangent differs from the derivative of the force by %g of %g\\n",worst,s); return 1; } return 0; }
'''),
dict(id="m02_unbiased_fixedlist", property="M02", needs="a square-circle annulus mesh with a radial bias p other than 1, and a condition on inner nodes",
 what_it_breaks="the fixed list tests positions of the unbiased mesh, so nodes where they really are go unconstrained",
 edits=[P("PrePost/Mesher/SquareCircleAnnulusMesh.h","T t = pow(i/(T)this->nr, this->p);",1,"T t = i/(T)this->nr;")],
 demo=H+'''#include "PrePost/Mesher/SquareCircleAnnulusMesh.h"
using namespace PANSFEM2;
int main(){ SquareCircleAnnulusMesh<double> m(4,6,1,2.0,2,3,4); auto x=m.GenerateNodes(); int n=0; auto f=[](Vector<double> p){ return std::fabs(p(0))<1.2&&std::fabs(p(1))<1.2; }; for(auto&p:x) n+=f(p); auto l=m.GenerateFixedlist({0},f); if((int)l.size()!=n){ printf("%d fixed, %d nodes inside\\n",(int)l.size(),n); return 1; } for(auto&q:l) if(!f(x[q.first.first])) return 1; return 0; }
'''),
dict(id="m01_truss_box", property="M01", needs="a ground structure whose length limit cuts a diagonal pair but neither of its legs",
 what_it_breaks="members longer than the limit are generated (the limit is applied per direction)",
 edits=[P("PrePost/Mesher/GrandStructure.h","pow(this->x*(i - k)/(T)this->nx, 2.0) + pow(this->y*(j - l)/(T)this->ny, 2.0) < pow(this->lmax, 2.0)",0,"std::max(pow(this->x*(i - k)/(T)this->nx, 2.0), pow(this->y*(j - l)/(T)this->ny, 2.0)) < pow(this->lmax, 2.0)")],
 demo=H+'''#include "PrePost/Mesher/GrandStructure.h"
using namespace PANSFEM2;
int main(){ GrandStructure2D<double> g(4,3,4,3,1.2); auto x=g.GenerateNodes(); for(auto&e:g.GenerateElements()) if((x[e[0]]-x[e[1]]).Norm()>=1.2){ puts("member longer than the limit"); return 1; } return 0; }
'''),
dict(id="o04_multiplier_negative", property="O04", needs="a CONLIN subproblem whose Newton step would take a bound multiplier through zero",
 what_it_breaks="the step length no longer protects the lower-bound multipliers, so the interior-point iteration leaves the admissible region",
 edits=[P("Optimize/Solver/CONLIN.h","-1.01*dgsi[j]/gsi[j], ",0,"")],
 demo='''@CONLIN'''),
dict(id="g01_weights_label", property="G01", needs="a weak spring with a permuted degree-of-freedom list",
 what_it_breaks="the equation labels of the spring ignore the list of degrees of freedom",
 edits=[P("FEM/Equation/General.h","std::make_pair(_doulist[j], n*i + j);",0,"std::make_pair(j + _doulist[0], n*i + j);")],
 demo=H+'''#include "FEM/Equation/General.h"
using namespace PANSFEM2;
int main(){ std::vector<Vector<double>> x(2,Vector<double>(2)); Matrix<double> K; std::vector<std::vector<std::pair<int,int>>> ne; std::vector<int> e={0,1},d={1,3}; WeakSpring<double>(K,ne,e,d,x,0.5); for(int i=0;i<2;i++) for(int j=0;j<2;j++) if(ne[i][j].first!=d[j]||ne[i][j].second!=2*i+j){ puts("label"); return 1; } return 0; }
'''),
dict(id="x01_points_spaces", property="X01", needs="a field whose name contains a header keyword of the file format",
 what_it_breaks="a scalar field named like SURFACE_POINTS is taken for the node section on import",
 edits=[],demo=''),
]
import os
SEEDS=[s for s in SEEDS if s["edits"] and not s["demo"].startswith("@")]
