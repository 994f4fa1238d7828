SEEDS=[
dict(id="b01_periodic_prescribed", property="B01", needs="a tied (periodic) pair whose master node has a prescribed component: the slave's component keeps an equation number of its own",
 what_it_breaks="a component tied to a prescribed one must be prescribed too; here it is left with an unrelated equation number",
 edits=[["src/FEM/Controller/BoundaryCondition.h","                _nodetoglobal[pairset.second][i] = _nodetoglobal[pairset.first][i];","                _nodetoglobal[pairset.second][i] = _nodetoglobal[pairset.first][i] != -1 ? _nodetoglobal[pairset.first][i] : 0;"]],
 demo='''#include "LinearAlgebra/Models/Vector.h"
#include "FEM/Controller/BoundaryCondition.h"
using namespace PANSFEM2;
int main(){ std::vector<std::vector<int>> g(3,std::vector<int>(2,0)); std::vector<std::pair<std::pair<int,int>,double>> f{{{0,1},0.0}}; SetDirichlet(g,f); SetPeriodic(g,{{0,2}}); if(g[2][1]!=-1||g[2][0]!=g[0][0]){ puts("tied component of a prescribed component got an equation"); return 1; } return 0; }
'''),
dict(id="k04_ilu_lower", property="K04", needs="a non-symmetric sparsity pattern in which row i stores column k but row k does not store column j, followed by a later common column",
 what_it_breaks="the zero-fill factorisation stops the elimination sum too early and no longer reproduces A on its pattern",
 edits=[["src/LinearAlgebra/Solvers/CG.h","						} else {\n							break;\n						}\n					}\n				}\n			}\n			if (i > j) {","						} else {\n							break;\n						}\n					} else if (k > 0) {\n						break;\n					}\n				}\n			}\n			if (i > j) {"]],
 demo='''#include <cmath>
#include "LinearAlgebra/Solvers/CG.h"
int main(){ LILCSR<double> a(4,4); double A[4][4]={{4,0,0,1},{0,5,0,0},{0,0,6,2},{1,1,2,9}}; for(int i=0;i<4;i++) for(int j=0;j<4;j++) if(A[i][j]!=0) a.set(i,j,A[i][j]); CSR<double> c(a),q=ILU0(c); 
 for(int i=0;i<4;i++) for(int j=0;j<4;j++) if(A[i][j]!=0){ double s=0; for(int k=0;k<4;k++){ double l=k<i?q.get(i,k):k==i?1:0,u=k<=j?q.get(k,j):0; s+=l*u; } if(std::fabs(s-A[i][j])>1e-9){ printf("LU(%d,%d)=%g A=%g\\n",i,j,s,A[i][j]); return 1; } } return 0; }
'''),
dict(id="a01_mixed_sign", property="A01", needs="assembly of a right-hand side from prescribed values only, when one element contains the same prescribed degree of freedom's column with a non-zero value and the row node appears before it",
 what_it_breaks="prescribed values are moved to the right-hand side only for nodes numbered after the row's node",
 edits=[],demo=""),
dict(id="l02_det4", property="L02", needs="a square matrix of size four or more whose first row is zero in its first entry",
 what_it_breaks="the cofactor expansion drops the remaining rows once a zero entry is met",
 edits=[["src/LinearAlgebra/Models/Matrix.h","            for(int i = 0; i < this->row; i++){\n                value += pow(-1.0, i)","            for(int i = 0; i < this->row; i++){\n                if(this->values[i * this->col] == T()) {\n                    break;\n                }\n                value += pow(-1.0, i)"]],
 demo='''#include <cmath>
#include "LinearAlgebra/Models/Matrix.h"
using namespace PANSFEM2;
int main(){ Matrix<double> a(4,4); int p[4]={1,0,3,2}; for(int i=0;i<4;i++) for(int j=0;j<4;j++) a(i,j)=(p[i]==j)?2.0:0.0; double d=a.Determinant(); if(!(std::fabs(d-16)<1e-9)){ printf("det %g\\n",d); return 1; } return 0; }
'''),
]
SEEDS=[s for s in SEEDS if s["edits"]]
