// Shared by the MMA and CONLIN harnesses. SOLVER is the class, CONVEX_MMA selects the approximation.
#pragma once
#include "common.h"
#include <algorithm>
#include <numeric>
#include <iostream>
#include <functional>
struct PR{ int n,m; double a0; DV a,c,d,xmin,xmax,x,df,g; DM dg; };
// fixed generic problem data (dyadic)
inline PR prob(int n,int m,bool withA=true){ PR p; p.n=n; p.m=m; p.a0=1.0; static const double X[3]={0.375,0.625,0.75},DF[3]={-1.5,0.75,-0.25},DG[3][3]={{0.5,-0.75,1.25},{-0.25,1.5,0.75},{1.0,0.25,-0.5}},G[3]={0.125,-0.25,0.0625}; auto at=[](const double*v,int j){ return j<3?v[j]:v[j%3]*(1-0.0625*j); }; for(int j=0;j<n;j++){ p.x.push_back(at(X,j)); p.df.push_back(at(DF,j)); p.xmin.push_back(0.125); p.xmax.push_back(1.125); } for(int i=0;i<m;i++){ p.a.push_back(withA?0.25+0.25*i:0.0); p.c.push_back(8.0+i); p.d.push_back(0.5+0.25*i); p.g.push_back(at(G,i)); DV r; for(int j=0;j<n;j++) r.push_back(at(DG[i%3],j)*(i<3?1.0:-1.25)); p.dg.push_back(r); } return p; }
