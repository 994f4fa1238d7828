SEEDS=[
dict(id="s01_write_zero", property="S01", needs="an entry already stored in the compressed form is overwritten with exactly zero",
 what_it_breaks="the write is treated as nothing to do, so reading the position returns the value before the last write",
 edits=[["src/LinearAlgebra/Models/CSR.h","	else if (*colnow == _col) {\n		*(this->data.begin()","	else if (*colnow == _col) {\n		if (_data == T()) {\n			return true;\n		}\n		*(this->data.begin()"]],
 demo='''#include <cstdio>
#include "LinearAlgebra/Solvers/CG.h"
int main(){ CSR<double> a(3,3); a.set(1,2,5.0); a.set(1,0,2.0); a.set(1,2,0.0); if(a.get(1,2)!=0.0||a.get(1,0)!=2.0){ printf("read back %g\\n",a.get(1,2)); return 1; } return 0; }
'''),
dict(id="s02_cancel", property="S02", needs="a sum of two building-form matrices in which an entry cancels to exactly zero",
 what_it_breaks="the cancelled entry keeps the first operand's value instead of zero",
 edits=[["src/LinearAlgebra/Models/LILCSR.h","			m.set(i, j, m.get(i, j) + dataij.second);","			T1 sum = m.get(i, j) + dataij.second;\n			if (sum != T1()) {\n				m.set(i, j, sum);\n			}"]],
 demo='''#include <cstdio>
#include "LinearAlgebra/Solvers/CG.h"
int main(){ LILCSR<double> a(2,2),b(2,2); a.set(0,1,3.5); a.set(1,1,1.0); b.set(0,1,-3.5); b.set(0,0,2.0); LILCSR<double> c=a+b; if(c.get(0,1)!=0.0||c.get(0,0)!=2.0||c.get(1,1)!=1.0){ printf("sum %g\\n",c.get(0,1)); return 1; } return 0; }
'''),
dict(id="k01_negative_pivot", property="K01", needs="a matrix whose diagonal entry is the largest of its column but negative",
 what_it_breaks="the pivot search compares with the signed diagonal, exchanges for a smaller entry and lets multipliers grow without bound",
 edits=[["src/LinearAlgebra/Solvers/LU.h","            T pivv = fabs(_A(k, k));","            T pivv = _A(k, k);"]],
 demo='''#include <cstdio>
#include <cmath>
#include <numeric>
#include "LinearAlgebra/Solvers/LU.h"
using namespace PANSFEM2;
int main(){ Matrix<double> a(2,2); a(0,0)=-1e3; a(0,1)=1; a(1,0)=1e-14; a(1,1)=1; std::vector<int> p(2); LU(a,p); if(std::fabs(a(1,0))>1.0000001){ printf("multiplier %g\\n",a(1,0)); return 1; } Vector<double> b(2); b(0)=1; b(1)=2; SolveLU(a,b,p); double r0=-1e3*b(0)+b(1)-1,r1=1e-14*b(0)+b(1)-2; if(std::fabs(r0)+std::fabs(r1)>1e-6){ printf("residual %g %g\\n",r0,r1); return 1; } return 0; }
'''),
dict(id="k03_squared_norm", property="K03", needs="a tolerance and right-hand side for which the squared residual falls under the bound before the residual does (residual below one)",
 what_it_breaks="BiCGSTAB2 stops with a residual far above the requested tolerance",
 edits=[["src/LinearAlgebra/Solvers/CG.h","		tkm1 = tk;\n		T rnorm = sqrt(std::inner_product(rk.begin(), rk.end(), rk.begin(), T()));","		tkm1 = tk;\n		T rnorm = std::inner_product(rk.begin(), rk.end(), rk.begin(), T());"]],
 demo='''#include <cstdio>
#include <cmath>
#include "LinearAlgebra/Solvers/CG.h"
int main(){ int n=12,bad=0; CSR<double> A(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(abs(i-j)<=1) A.set(i,j,i==j?3.0+0.1*i:(j>i?-1.0:-1.4)); std::vector<double> b(n); for(int i=0;i<n;i++) b[i]=0.1*(i%4-1.5); for(double eps=1e-2;eps>1e-9;eps*=0.5){ std::vector<double> x=BiCGSTAB2(A,b,200,eps),r=A*x; double e=0,m=0; for(int i=0;i<n;i++){ e+=(r[i]-b[i])*(r[i]-b[i]); m+=b[i]*b[i]; } if(!(sqrt(e)<=1.01*eps*sqrt(m))) bad++; } if(bad){ printf("%d tolerances missed\\n",bad); return 1; } return 0; }
'''),
dict(id="k05_last_component", property="K05", needs="a system whose last unknown settles before the others",
 what_it_breaks="the stopping criterion looks at the last unknown only and the sweep stops at a vector that is not a solution",
 edits=[["src/LinearAlgebra/Solvers/CG.h","			error += fabs((tmp - x[i]) / tmp);","			error = fabs((tmp - x[i]) / tmp);"]],
 demo='''#include <cstdio>
#include <cmath>
#include "LinearAlgebra/Solvers/CG.h"
int main(){ CSR<double> A(3,3); A.set(0,0,2); A.set(0,1,-1.5); A.set(1,0,-1.0); A.set(1,1,2); A.set(2,2,4); std::vector<double> b{1,2,8}; std::vector<double> x=SOR(A,b,1.0,200,1e-8),r=A*x; double e=0; for(int i=0;i<3;i++) e+=std::fabs(r[i]-b[i]); if(!(e<1e-5)){ printf("residual %g\\n",e); return 1; } return 0; }
'''),
dict(id="a01_mixed_other_group", property="A01", needs="mixed interpolation in which the second field's element lists its nodes in another order than the first field's, with a prescribed value of the second field",
 what_it_breaks="the prescribed value is read from the wrong node when it is moved to the right-hand side",
 edits=[["src/FEM/Controller/Assembling.h","_Ke(douj.second, doul.second)*_u[_elements[k][l]](doul.first);","_Ke(douj.second, doul.second)*_u[_elements[0][l]](doul.first);"]],
 demo='''#include <cstdio>
#include "FEM/Controller/Assembling.h"
using namespace PANSFEM2;
int main(){ std::vector<std::vector<int>> g{{0,-1},{1,-1},{2,-1}}; std::vector<Vector<double>> u(3,Vector<double>(2)); u[0](1)=1; u[1](1)=10; u[2](1)=100; std::vector<std::vector<int>> el{{0,1,2},{2,0}}; std::vector<std::vector<std::vector<std::pair<int,int>>>> ne{{{{0,0}},{{0,1}},{{0,2}}},{{{1,3}},{{1,4}}}}; Matrix<double> K(5,5); for(int i=0;i<5;i++) for(int j=0;j<5;j++) K(i,j)=i+j+1; LILCSR<double> G(3,3); std::vector<double> F(3,0.0); Assembling(G,F,u,K,g,ne,el); for(int i=0;i<3;i++){ double w=-(K(i,3)*100+K(i,4)*1); if(F[i]!=w){ printf("F[%d]=%g want %g\\n",i,F[i],w); return 1; } } return 0; }
'''),
dict(id="o02_signed_convergence", property="O02", needs="an objective whose values are negative",
 what_it_breaks="convergence is reported at once for negative objectives",
 edits=[["src/Optimize/Solver/OC.h","fabs(_currentf0 - this->previousvalue)/fabs(_currentf0 + this->previousvalue)","fabs(_currentf0 - this->previousvalue)/(_currentf0 + this->previousvalue)"]],
 demo='''#include <cstdio>
#include <cmath>
#include <vector>
#include <iostream>
#include <algorithm>
#include "Optimize/Solver/OC.h"
using namespace PANSFEM2;
int main(){ OC<double> o(1,0.5,0,1e4,1e-3,0.2,{0.0},{1.0}); std::vector<double> x{0.5}; o.UpdateVariables(x,-1.0,{-1.0},0.0,{1.0},[](std::vector<double> y){ return y[0]-0.5; }); if(o.IsConvergence(-2.0)){ puts("converged although the objective doubled"); return 1; } return 0; }
'''),
dict(id="o03_stationary_variable", property="O03", needs="three or more iterations in which one variable does not move between two of them",
 what_it_breaks="the asymptotes of a variable that did not move are widened as if it moved monotonically",
 edits=[["src/Optimize/Solver/MMA.h","				} else if(tmp > T()){","				} else if(tmp >= T()){"]],
 demo='''#include <cstdio>
#include <cmath>
#include <vector>
#include <iostream>
#include <numeric>
#include <algorithm>
#define private public
#include "Optimize/Solver/MMA.h"
#undef private
using namespace PANSFEM2;
int main(){ int n=2,m=1; MMA<double> s(n,m,1.0,{0.0},{1e4},{0.0},{0.0,0.0},{1.0,1.0}); std::vector<double> x{0.5,0.5}; for(int k=0;k<2;k++){ std::vector<double> y=x; s.UpdateVariables(y,1.0,{1.0,-1.0},{-1.0},{{1.0,1.0}}); } double w=s.U[0]-s.L[0]; std::vector<double> y=x; s.UpdateVariables(y,1.0,{1.0,-1.0},{-1.0},{{1.0,1.0}}); if(std::fabs((s.U[0]-s.L[0])-w)>1e-9){ printf("asymptote distance %g -> %g\\n",w,s.U[0]-s.L[0]); return 1; } return 0; }
'''),
dict(id="o01_small_density", property="O01", needs="a density below 1e-3 in the sensitivity filter",
 what_it_breaks="the weighted mean is divided by a floor instead of the density itself",
 edits=[["src/Optimize/Filter/SensitivityFilter.h","dfds[i] /= wsum*_s[i];","dfds[i] /= wsum*std::max(_s[i], T(1.0e-3));"]],
 demo='''#include <cstdio>
#include <cmath>
#include <vector>
#include <algorithm>
#include "Optimize/Filter/SensitivityFilter.h"
using namespace PANSFEM2;
int main(){ SensitivityFilter<double> f(2,{{0,1},{1,0}},{{1.0,0.5},{1.0,0.5}}); std::vector<double> r=f.GetFilteredSensitivitis({1e-4,0.5},{-2.0,-3.0}); double w=(1e-4*-2.0+0.5*0.5*-3.0)/(1.5*1e-4); if(std::fabs(r[0]-w)>1e-9*std::fabs(w)){ printf("%g want %g\\n",r[0],w); return 1; } return 0; }
'''),
dict(id="p04_supg_peclet", property="P04", needs="an element Peclet number between one and three",
 what_it_breaks="the stabilisation parameter of the shock-capturing matrix switches to the advection limit too early",
 edits=[["src/FEM/Equation/Advection.h","			T tau = 0.5*a.Norm()*he;\n			if(alpha <= 3.0){","			T tau = 0.5*a.Norm()*he;\n			if(alpha <= 1.0){"]],
 demo='''#include <cstdio>
#include <cmath>
#include <vector>
#include "FEM/Equation/Advection.h"
#include "FEM/Controller/ShapeFunction.h"
#include "FEM/Controller/GaussIntegration.h"
using namespace PANSFEM2;
int main(){ std::vector<Vector<double>> x; double p[4][2]={{0,0},{1,0},{1,1},{0,1}}; for(auto&q:p) x.push_back(Vector<double>(std::vector<double>{q[0],q[1]})); Matrix<double> K,D; std::vector<std::vector<std::pair<int,int>>> ne; AdvectionShockCapturing<double,ShapeFunction4Square,Gauss1Square>(K,ne,{0,1,2,3},{0},x,1.0,0.0,0.25); Diffusion<double,ShapeFunction4Square,Gauss1Square>(D,ne,{0,1,2,3},{0},x,1.0); double he=1.0,al=0.5*he/0.25,tau=0.5*he*al/3; for(int i=0;i<4;i++) for(int j=0;j<4;j++) if(std::fabs(K(i,j)-tau*D(i,j))>1e-9){ printf("%g want %g\\n",K(i,j),tau*D(i,j)); return 1; } return 0; }
'''),
dict(id="x01_prefix_name", property="X01", needs="a file holding two point scalars of which one name is the beginning of the other, the longer first",
 what_it_breaks="the reader accepts a field whose name only starts with the requested one",
 edits=[["src/PrePost/Import/ImportFromVTK.h","                if(linestrings == _keyword){\n                    pointscalars","                if(linestrings.find(_keyword) == 0){\n                    pointscalars"]],
 demo='''#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include <string>
#include "PrePost/Import/ImportFromVTK.h"
using namespace PANSFEM2;
int main(){ { std::ofstream f("a.vtk"); f<<"# vtk DataFile Version 4.1\\nv\\nASCII\\nDATASET UNSTRUCTURED_GRID\\nPOINTS 2 float\\n0 0 0\\n1 0 0\\nCELLS 1 3\\n2 0 1\\nCELL_TYPES 1\\n3\\nPOINT_DATA 2\\nSCALARS rho2 float\\nLOOKUP_TABLE default\\n1\\n2\\nSCALARS rho float\\nLOOKUP_TABLE default\\n5\\n6\\n"; } ImportModelFromVTK<double> m("a.vtk",2); std::vector<double> r=m.ImportPOINTSCALARS("rho"); if(r.size()!=2||r[0]!=5||r[1]!=6){ printf("%zu %g\\n",r.size(),r.empty()?0:r[0]); return 1; } return 0; }
'''),
dict(id="e01_wide_spectrum", property="E01", needs="two solves with one process object history is not needed: only a negative shift",
 what_it_breaks="the eigenvalue is not transformed back from a negative shift",
 edits=[["src/LinearAlgebra/Solvers/Lanczos.h","        T eigenvalue = BisectionMethod(alpha, beta, _m - k - 1);\n		_eigenvalues[k] = _sigma + 1.0/eigenvalue;		\n		_eigenvectors[k] = ReconvertVector(InversePowerMethod(alpha, beta, eigenvalue), q);\n	}	\n}\n\n\n//********************Shifted-Invert Lanczos process for","        T eigenvalue = BisectionMethod(alpha, beta, _m - k - 1);\n		_eigenvalues[k] = fabs(_sigma) + 1.0/eigenvalue;		\n		_eigenvectors[k] = ReconvertVector(InversePowerMethod(alpha, beta, eigenvalue), q);\n	}	\n}\n\n\n//********************Shifted-Invert Lanczos process for"]],
 demo='''#include <cstdio>
#include <cmath>
#include "LinearAlgebra/Solvers/Lanczos.h"
int main(){ CSR<double> A(2,2); A.set(0,0,2); A.set(0,1,-1); A.set(1,0,-1); A.set(1,1,3); std::vector<double> l; std::vector<std::vector<double>> v; ShiftedInvertLanczos(A,l,v,2,-0.5); double e=(5-sqrt(5.0))/2; if(std::fabs(l[0]-e)>1e-5){ printf("%g want %g\\n",l[0],e); return 1; } return 0; }
'''),
]
for s in SEEDS:
    if s["id"]=="e01_wide_spectrum": s["id"]="e01_negative_shift"; s["needs"]="a negative shift in the standard shifted-invert process"
