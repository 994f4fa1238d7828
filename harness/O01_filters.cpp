// Topology-optimisation filters: weighted averages over neighbour lists, projection, and sensitivities by the chain rule.
#include "common.h"
#include "Optimize/Filter/DensityFilter.h"
#include "Optimize/Filter/HeavisideFilter.h"
#include "Optimize/Filter/SensitivityFilter.h"
typedef std::vector<std::vector<int>> NB; typedef std::vector<std::vector<double>> WW;
struct PB{ int n; NB nb; WW w; DV s,d; DV ws; };
static PB mk(int kind){ PB p; if(kind==0){ p.nb={{0,1},{1,0,2},{2,1}}; } else if(kind==1){ p.nb={{1,0,3},{1},{0,2,3},{3,2,1,0}}; } else { p.nb={{0,1,3},{2,1,0},{3,2,1},{0,2,3}}; } p.n=p.nb.size();
    if(kind==2){ double a=vc_real("wa",1e-12,1e9),b=vc_real("wb",1e-12,1e9); for(int i=0;i<p.n;i++){ p.w.push_back({}); for(int j:p.nb[i]) p.w[i].push_back(i==j?a:b); } }
    else for(int i=0;i<p.n;i++){ p.w.push_back({}); for(size_t j=0;j<p.nb[i].size();j++) p.w[i].push_back(vc_real(vc_nm("w",i,j),1e-12,1e9)); }
    for(int i=0;i<p.n;i++){ p.s.push_back(vc_real(vc_nm("s",i),1e-9,1)); p.d.push_back(vc_real(vc_nm("d",i),-1e12,1e12)); double t=0; for(double q:p.w[i]) t+=q; p.ws.push_back(t); } return p; }
static DV avg(const PB&p){ DV r(p.n,0.0); for(int i=0;i<p.n;i++){ for(size_t j=0;j<p.nb[i].size();j++) r[i]+=p.w[i][j]*p.s[p.nb[i][j]]; r[i]/=p.ws[i]; } return r; }
static void cmp(const DV&a,const DV&b,const std::string&l){ vc_true(a.size()==b.size(),l+": size"); for(size_t i=0;i<a.size()&&i<b.size();i++) vc_eq(a[i],b[i],1e-7,l+"("+std::to_string(i)+")"); }
static DV chain(const PB&p,const DV&dr){ DV e(p.n,0.0); for(int i=0;i<p.n;i++) for(size_t j=0;j<p.nb[i].size();j++) e[p.nb[i][j]]+=dr[i]*p.w[i][j]/p.ws[i]; return e; }
static void density(int kind){ PB p=mk(kind); DensityFilter<double> f(p.n,p.nb,p.w); DV r=f.GetFilteredVariables(p.s); vc_reach("density"); DV e=avg(p); cmp(r,e,"filtered density is the weighted average");
    for(int i=0;i<p.n;i++){ vc_le(r[i],1.0,1e-9,"filtered density stays within the range of the variables"); vc_le(1e-9,r[i],1e-10,"filtered density stays within the range of the variables"); }
    DV g=f.GetFilteredSensitivitis(p.s,p.d); cmp(g,chain(p,p.d),"density sensitivities follow the chain rule"); }
//@ time=120 | density filter, 3 elements in a row, all weights, densities and sensitivities symbolic
VC_ENTRY density_row(){ density(0); }
//@ time=120 | density filter, 4 elements, asymmetric neighbour lists and weights
VC_ENTRY density_any(){ density(1); }
static void heavi(int kind,bool known){ PB p=mk(kind); HeavisideFilter<double> f(p.n,p.nb,p.w); double b=vc_choose("default_beta",0,1)?1.0:vc_real("beta",0.01,1000); if(!vc_is_concrete(b)||b!=1.0) f.UpdateBeta(b); DV r=f.GetFilteredVariables(p.s); vc_reach("heaviside"); DV st=avg(p); DV e(p.n),dr(p.n),own(p.n,0.0); double t0=std::tanh(b/2); for(int i=0;i<p.n;i++){ double t=std::tanh(b*(st[i]-0.5)); e[i]=(t0+t)/(2*t0); dr[i]=p.d[i]*b*(1-t*t)/(2*t0); }
    if(!known) cmp(r,e,"projected density"); DV g=f.GetFilteredSensitivitis(p.s,p.d); DV c=chain(p,dr); if(known) cmp(g,c,"Heaviside sensitivities follow the chain rule"); else if(kind==2) cmp(g,c,"Heaviside sensitivities follow the chain rule (uniform weight sums)");
    else { vc_true((int)g.size()==p.n,"Heaviside sensitivities: size"); for(int i=0;i<p.n;i++) for(size_t j=0;j<p.nb[i].size();j++) own[i]+=dr[p.nb[i][j]]*p.w[i][j]/p.ws[i]; for(int i=0;i<p.n;i++) vc_eq((g[i]-c[i])*(g[i]-own[i]),0.0,1e-7,"Heaviside sensitivities: chain rule, or the recorded own-weight-sum averaging ("+std::to_string(i)+")"); } }
//@ time=200 | Heaviside filter, ring of 4 elements with equal weight sums, symbolic weights, densities, sensitivities and beta
VC_ENTRY heaviside_ring(){ heavi(2,false); }
//@ time=200 | Heaviside filter, 3 elements in a row, arbitrary weights: projected values, and sensitivities up to the recorded finding
VC_ENTRY heaviside_row(){ heavi(0,false); }
//@ time=200 | Heaviside filter, 3 elements in a row with unequal weight sums: exact chain rule (recorded finding)
VC_ENTRY heaviside_chain(){ heavi(0,true); }
static void sens(int kind){ PB p=mk(kind); SensitivityFilter<double> f(p.n,p.nb,p.w); SensitivityFilter2<double> f2(p.n,p.nb,p.w); DV a=f.GetFilteredSensitivitis(p.s,p.d),b=f2.GetFilteredSensitivitis(p.s,p.d); vc_reach("sens"); DV e(p.n),e2(p.n); for(int i=0;i<p.n;i++){ double u=0,v=0; for(size_t j=0;j<p.nb[i].size();j++){ int q=p.nb[i][j]; u+=p.w[i][j]*p.s[q]*p.d[q]; v+=p.w[i][j]*p.s[q]; } e[i]=u/(p.s[i]*p.ws[i]); e2[i]=u/v; } cmp(a,e,"Sigmund sensitivity filter"); cmp(b,e2,"density-weighted sensitivity filter"); }
//@ time=120 | sensitivity filters, 3 elements in a row
VC_ENTRY sens_row(){ sens(0); }
//@ time=120 | sensitivity filters, 4 elements, asymmetric neighbour lists
VC_ENTRY sens_any(){ sens(1); }
// the same filter object answers every later field afresh, and long neighbour lists are complete
static PB strip(int n,int rad){ PB p; p.n=n; for(int i=0;i<n;i++){ p.nb.push_back({}); p.w.push_back({}); double t=0; for(int k=0;k<2*rad+1;k++){ int j=i+(k%2?(k+1)/2:-(k/2)); if(j<0||j>=n) continue; p.nb[i].push_back(j); double w= i==5? vc_real(vc_nm("w",i,j),0.125,4): rad+1-std::abs(i-j); p.w[i].push_back(w); t+=w; } p.ws.push_back(t); p.s.push_back(vc_real(vc_nm("s",i),1e-9,1)); p.d.push_back(vc_real(vc_nm("d",i),-1000,1000)); } return p; }
//@ time=200 | 11 elements in a strip, neighbour lists of up to 9 in alternating order, one row of weights symbolic, two successive fields through the same density and sensitivity filters
VC_ENTRY strip_twice(){ PB p=strip(11,4); DensityFilter<double> f(p.n,p.nb,p.w); SensitivityFilter<double> f1(p.n,p.nb,p.w); SensitivityFilter2<double> f2(p.n,p.nb,p.w); vc_reach("strip"); for(int t=0;t<2;t++){ if(t) for(int i=0;i<p.n;i++){ p.s[i]=vc_real(vc_nm("s2_",i),1e-9,1); p.d[i]=vc_real(vc_nm("d2_",i),-1000,1000); }
    cmp(f.GetFilteredVariables(p.s),avg(p),"filtered density is the weighted average"); cmp(f.GetFilteredSensitivitis(p.s,p.d),chain(p,p.d),"density sensitivities follow the chain rule"); DV a=f1.GetFilteredSensitivitis(p.s,p.d),b=f2.GetFilteredSensitivitis(p.s,p.d); for(int i=0;i<p.n;i++){ double u=0,v=0; for(size_t j=0;j<p.nb[i].size();j++){ int q=p.nb[i][j]; u+=p.w[i][j]*p.s[q]*p.d[q]; v+=p.w[i][j]*p.s[q]; } vc_eq(a[i]*p.s[i]*p.ws[i],u,1e-5,"Sigmund sensitivity filter"); vc_eq(b[i]*v,u,1e-5,"density-weighted sensitivity filter"); } } }
//@ time=200 | Heaviside filter reused: projection strengthened between two fields (ring of 4, symbolic fields and both beta values)
VC_ENTRY heaviside_twice(){ PB p=mk(2); HeavisideFilter<double> f(p.n,p.nb,p.w); vc_reach("twice"); for(int t=0;t<2;t++){ double b=vc_real(vc_nm("beta",t),0.01,1000); f.UpdateBeta(b); if(t) for(int i=0;i<p.n;i++){ p.s[i]=vc_real(vc_nm("s2_",i),1e-9,1); p.d[i]=vc_real(vc_nm("d2_",i),-2,2); } DV st=avg(p),r=f.GetFilteredVariables(p.s),e(p.n),dr(p.n); double t0=std::tanh(b/2); for(int i=0;i<p.n;i++){ double q=std::tanh(b*(st[i]-0.5)); e[i]=(t0+q)/(2*t0); dr[i]=p.d[i]*b*(1-q*q)/(2*t0); } cmp(r,e,"projected density"); cmp(f.GetFilteredSensitivitis(p.s,p.d),chain(p,dr),"Heaviside sensitivities follow the chain rule (uniform weight sums)"); } }
