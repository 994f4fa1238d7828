#pragma once
#include "sparse.h"
#include "LinearAlgebra/Solvers/CG.h"
inline DV resid(const DM&a,const DV&x,const DV&b){ DV r=mvec(a,x); for(size_t i=0;i<b.size();i++) r[i]=b[i]-r[i]; return r; }
inline double nrm(const DV&v){ double s=0; for(double x:v) s+=x*x; return sqrt(s); }
inline double dot(const DV&a,const DV&b){ double s=0; for(size_t i=0;i<a.size();i++) s+=a[i]*b[i]; return s; }
inline DM spd(int n,int which){ // fixed SPD matrices
    DM a(n,DV(n,0.0)); if(which==0){ for(int i=0;i<n;i++){ a[i][i]=2; if(i) a[i][i-1]=a[i-1][i]=-1; } } else if(which==1){ for(int i=0;i<n;i++) for(int j=0;j<n;j++) a[i][j]=(i==j?3.0+i:0)+0.5/(1+i+j); } else { for(int i=0;i<n;i++) a[i][i]=i+1; a[0][n-1]=a[n-1][0]=0.5; } return a; }
inline DM nonsym(int n,int which){ DM a=spd(n,which); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(j>i&&a[i][j]!=0) a[i][j]+=0.75*(1+(i+j)%2); return a; }

// larger sparse systems that take many iterations: w=0 five-point grid with varying coefficients, w=1 chain with strongly varying diagonal, w=2 nine-point grid
inline DM gridm(int n,int w,double skew){ DM a(n,DV(n,0.0)); int m=w==1?n:(int)(sqrt((double)n)+0.5); auto add=[&](int i,int j,double c){ a[i][i]+=c; a[j][j]+=c; a[i][j]-=c*(1+skew); a[j][i]-=c*(1-skew); }; for(int i=0;i<n;i++){ a[i][i]+=0.05+(i%4==1?0.5:0); if(w==1){ if(i+1<n) add(i,i+1,1.0+(i%5)*(i%5)*0.5); } else { int x=i%m,y=i/m; if(x+1<m) add(i,i+1,1+0.25*(i%3)); if(y+1<m) add(i,i+m,0.5+0.5*(i%2)); if(w==2&&x+1<m&&y+1<m) add(i,i+m+1,0.25); } } return a; }
