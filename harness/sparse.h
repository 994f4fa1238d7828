#pragma once
#include "common.h"
#include "LinearAlgebra/Models/CSR.h"
#include "LinearAlgebra/Models/LILCSR.h"
inline CSR<double> tocsr(const DM&a,bool zeros=true){ CSR<double> m((int)a.size(),(int)a[0].size()); for(int i=0;i<(int)a.size();i++) for(int j=0;j<(int)a[i].size();j++) if(zeros) m.set(i,j,a[i][j]); return m; }
inline void setcsr(CSR<double>&m,const DM&a,const std::vector<std::vector<int>>&pat){ for(int i=0;i<(int)a.size();i++) for(int j=0;j<(int)a[i].size();j++) if(pat[i][j]) m.set(i,j,a[i][j]); }
template<class M> inline void eqs(const M&m,const DM&a,const std::string&l,double tol=TOL){ vc_true(m.ROWS==(int)a.size()&&m.COLS==(int)a[0].size(),l+".shape"); for(int i=0;i<(int)a.size();i++) for(int j=0;j<(int)a[0].size();j++) vc_eq(m.get(i,j),a[i][j],tol,l+"("+std::to_string(i)+","+std::to_string(j)+")"); }
inline void eqd(const std::vector<double>&a,const DV&b,const std::string&l,double tol=TOL){ vc_true(a.size()==b.size(),l+".size"); if(a.size()==b.size()) for(size_t i=0;i<b.size();i++) vc_eq(a[i],b[i],tol,l+"("+std::to_string(i)+")"); }
