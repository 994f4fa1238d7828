#pragma once
#include "vc.h"
#include "LinearAlgebra/Models/Matrix.h"
#include "LinearAlgebra/Models/Vector.h"
using namespace PANSFEM2;
typedef Vector<double> VD_; typedef Matrix<double> MD_;
typedef std::vector<std::vector<double>> DM; typedef std::vector<double> DV;     // plain oracle containers
#ifndef VC_TOL
#define VC_TOL 1e-7
#endif
#ifndef VC_LIM
#define VC_LIM 2
#endif
static const double TOL=VC_TOL;
inline DV symv(const std::string&n,int k,double lo=-VC_LIM,double hi=VC_LIM){ DV v(k); for(int i=0;i<k;i++) v[i]=vc_real(n+std::to_string(i),lo,hi); return v; }
inline DM symm(const std::string&n,int r,int c,double lo=-VC_LIM,double hi=VC_LIM){ DM m(r,DV(c)); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m[i][j]=vc_real(n+std::to_string(i)+"_"+std::to_string(j),lo,hi); return m; }
inline Vector<double> tov(const DV&v){ Vector<double> r((int)v.size()); for(size_t i=0;i<v.size();i++) r((int)i)=v[i]; return r; }
inline Matrix<double> tom(const DM&v){ Matrix<double> r((int)v.size(),(int)(v.empty()?0:v[0].size())); for(size_t i=0;i<v.size();i++) for(size_t j=0;j<v[i].size();j++) r((int)i,(int)j)=v[i][j]; return r; }
inline void eqv(Vector<double> a,const DV&b,const std::string&l,double tol=TOL){ vc_true(a.SIZE()==(int)b.size(),l+".size"); if(a.SIZE()==(int)b.size()) for(size_t i=0;i<b.size();i++) vc_eq(a((int)i),b[i],tol,l+"("+std::to_string(i)+")"); }
inline void eqm(Matrix<double> a,const DM&b,const std::string&l,double tol=TOL){ bool ok=a.ROW()==(int)b.size()&&a.COL()==(int)(b.empty()?0:b[0].size()); vc_true(ok,l+".shape"); if(ok) for(size_t i=0;i<b.size();i++) for(size_t j=0;j<b[i].size();j++) vc_eq(a((int)i,(int)j),b[i][j],tol,l+"("+std::to_string(i)+","+std::to_string(j)+")"); }
inline DM mmul(const DM&a,const DM&b){ DM r(a.size(),DV(b[0].size(),0.0)); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<b[0].size();j++){ double s=0; for(size_t k=0;k<b.size();k++) s+=a[i][k]*b[k][j]; r[i][j]=s; } return r; }
inline DV mvec(const DM&a,const DV&b){ DV r(a.size(),0.0); for(size_t i=0;i<a.size();i++){ double s=0; for(size_t k=0;k<b.size();k++) s+=a[i][k]*b[k]; r[i]=s; } return r; }
inline DM mtr(const DM&a){ DM r(a[0].size(),DV(a.size())); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a[0].size();j++) r[j][i]=a[i][j]; return r; }
inline double det_leibniz(const DM&a){ int n=a.size(); std::vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; double s=0; for(;;){ int inv=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(p[i]>p[j]) inv++; double t=1; for(int i=0;i<n;i++) t*=a[i][p[i]]; if(inv%2) s-=t; else s+=t; int k=n-2; while(k>=0&&p[k]>p[k+1]) k--; if(k<0) break; int l=n-1; while(p[l]<p[k]) l--; int tmp=p[k]; p[k]=p[l]; p[l]=tmp; for(int x=k+1,y=n-1;x<y;x++,y--){ tmp=p[x]; p[x]=p[y]; p[y]=tmp; } } return s; }
