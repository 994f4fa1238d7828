SEEDS=[
dict(id="k02_preconditioned_norm", property="K02", needs="an ILU(0)-preconditioned run in which the preconditioner makes the residual look small (large matrix entries) and a loose tolerance",
 what_it_breaks="convergence is declared from the preconditioned residual, so the returned vector's residual is above the requested tolerance",
 edits=[["src/LinearAlgebra/Solvers/CG.h","		Mrk = PreILU0(_M, rk);							//Preconditioning\n		T Mrkp1rkp1 = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());\n		T beta = Mrkp1rkp1/Mrkrk;\n		xeaxpy(beta, pk, Mrk);\n		Mrkrk = Mrkp1rkp1;\n\n		//----------Check convergence----------\n		T rnorm = sqrt(std::inner_product(rk.begin(), rk.end(), rk.begin(), T()));","		Mrk = PreILU0(_M, rk);							//Preconditioning\n		T Mrkp1rkp1 = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());\n		T beta = Mrkp1rkp1/Mrkrk;\n		xeaxpy(beta, pk, Mrk);\n		Mrkrk = Mrkp1rkp1;\n\n		//----------Check convergence----------\n		T rnorm = sqrt(fabs(Mrkrk));"]],
 demo='''#include <cstdio>
#include <cmath>
#include "LinearAlgebra/Solvers/CG.h"
int main(){ int m=6,n=m*m; CSR<double> A(n,n); for(int i=0;i<n;i++){ A.set(i,i,1e6*(4.1+0.3*(i%3))); if(i%m) A.set(i,i-1,-1e6); if(i%m!=m-1) A.set(i,i+1,-1e6); if(i>=m) A.set(i,i-m,-1e6); if(i<n-m) A.set(i,i+m,-1e6); } std::vector<double> b(n); for(int i=0;i<n;i++) b[i]=1+i%5; CSR<double> M=ILU0(A); std::vector<double> x=ILU0CG(A,M,b,200,1e-4),r=A*x; double e=0,s=0; for(int i=0;i<n;i++){ e+=(r[i]-b[i])*(r[i]-b[i]); s+=b[i]*b[i]; } if(!(sqrt(e)<=1.01e-4*sqrt(s))){ printf("relative residual %g\\n",sqrt(e/s)); return 1; } return 0; }
'''),
dict(id="x02_free_ends_row", property="X02", needs="an initial-value row with an entry marked free before a numeric one",
 what_it_breaks="a free entry ends the row, so the later components keep their old values",
 edits=[["src/PrePost/Import/ImportFromCSV.h","					if (std::getline(sbuf, str, ',') && str != \"free\") {\n						_u[idn](i) = stod(str);\n					}","					if (!std::getline(sbuf, str, ',') || str == \"free\") {\n						break;\n					}\n					_u[idn](i) = stod(str);"]],
 demo='''#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include <string>
#include "PrePost/Import/ImportFromCSV.h"
using namespace PANSFEM2;
int main(){ { std::ofstream f("a.csv"); f<<"ID,x,y\\n1,free,2.5\\n0,1,free\\n"; } std::vector<Vector<double>> u(2,Vector<double>(2)); ImportInitialFromCSV(u,"a.csv"); if(u[1](1)!=2.5||u[0](0)!=1||u[1](0)!=0){ puts("initial value lost"); return 1; } return 0; }
'''),
]
