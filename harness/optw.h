// White-box part (names private members; compiled only as an optional harness): KKTNorm is replaced by an explicit
// specialisation for double, so the real UpdateVariables runs unchanged while the harness observes the subproblem it built,
// the Newton direction of an arbitrary (havocked) iterate, the step length and the continuation logic.
#define private public
#include SOLVER_H
#undef private
typedef SOLVER<double> SO;
struct WK{ DV x,y; double z; DV lam,gsi,ita,mu; double zeta; DV s; double eps; };
struct SUB{ DM p,q; DV p0,q0,al,be,b; };
typedef std::function<double(SO*,const WK&,const SUB&,const void*,std::function<void(const WK&)>)> HOOK;
static HOOK* g_hook=nullptr;
namespace PANSFEM2{
template<> double SOLVER<double>::KKTNorm(const std::vector<double>& x, const std::vector<double>& y, double z, const std::vector<double>& lam, const std::vector<double>& gsi, const std::vector<double>& ita, const std::vector<double>& mu, double zeta, const std::vector<double>& s, double eps, const std::vector<std::vector<double> >& p, const std::vector<std::vector<double> >& q, const std::vector<double>& p0, const std::vector<double>& q0, const std::vector<double>& al, const std::vector<double>& be, const std::vector<double>& b){
    WK w{x,y,z,lam,gsi,ita,mu,zeta,s,eps}; SUB u{p,q,p0,q0,al,be,b}; auto C=[](const std::vector<double>&v)->std::vector<double>&{ return const_cast<std::vector<double>&>(v); };
    return (*g_hook)(this,w,u,&x,[&](const WK&h){ C(x)=h.x; C(y)=h.y; C(lam)=h.lam; C(gsi)=h.gsi; C(ita)=h.ita; C(mu)=h.mu; C(s)=h.s; }); }
}
#ifdef CONVEX_MMA
static double av(SO*o,int j,double p,double q,double x){ return p/(o->U[j]-x)+q/(x-o->L[j]); }
static double ad(SO*o,int j,double p,double q,double x){ double a=o->U[j]-x,b=x-o->L[j]; return p/(a*a)-q/(b*b); }
static double add(SO*o,int j,double p,double q,double x){ double a=o->U[j]-x,b=x-o->L[j]; return 2*p/(a*a*a)+2*q/(b*b*b); }
#else
static double av(SO*,int,double p,double q,double x){ return p*x+q/x; }
static double ad(SO*,int,double p,double q,double x){ return p-q/(x*x); }
static double add(SO*,int,double,double q,double x){ return 2*q/(x*x*x); }
#endif
static std::string ix(int i){ return "("+std::to_string(i)+")"; }
static void stop(){ vc_assume(0); }
static bool initial(const WK&w,const SUB&u){ for(size_t j=0;j<w.x.size();j++) if(!(std::fabs(w.x[j]-0.5*(u.al[j]+u.be[j]))<1e-9)) return false; for(double v:w.y) if(v!=1.0) return false; return true; }
// the convex separable approximation agrees with value and gradient of the functions at the current design
static void approx(SO*o,const PR&p,const SUB&u){ vc_reach("subproblem"); int n=p.n,m=p.m;
    for(int j=0;j<n;j++){ vc_eq(ad(o,j,u.p0[j],u.q0[j],p.x[j]),p.df[j],1e-6,"gradient of the approximated objective at the current design"+ix(j)); vc_le(0,u.p0[j],1e-9,"approximation is convex (p0)"+ix(j)); vc_le(0,u.q0[j],1e-9,"approximation is convex (q0)"+ix(j)); }
    for(int i=0;i<m;i++){ double v=-u.b[i]; for(int j=0;j<n;j++){ v+=av(o,j,u.p[i][j],u.q[i][j],p.x[j]); vc_eq(ad(o,j,u.p[i][j],u.q[i][j],p.x[j]),p.dg[i][j],1e-6,"gradient of the approximated constraint at the current design"+ix(i)+ix(j)); vc_le(0,u.p[i][j],1e-9,"approximation is convex (p)"+ix(j)); vc_le(0,u.q[i][j],1e-9,"approximation is convex (q)"+ix(j)); } vc_eq(v,p.g[i],1e-6,"value of the approximated constraint at the current design"+ix(i)); } }
static double mx(double a,double b){ if(a<b) return b; return a; } static double mn(double a,double b){ if(b<a) return b; return a; }
// havocked iterate: which = bit set of the components that are symbolic
static double hv(const std::string&n,bool sym,double v,double r){ return sym?vc_real(n,v-r,v+r):v; }
// wide: the one symbolic component covers three decades, so that it can be the one that limits the step
static WK havoc_wide(const PR&p,const SUB&u,int g){ WK w; int n=p.n,m=p.m; auto W=[&](int k,const std::string&s,bool f,double v){ return (g==k||(g==7&&(k==5||k==6)))&&f?vc_real(s,0.0078125,8):v; }; for(int j=0;j<n;j++){ double a=u.al[j],b=u.be[j],c=g==0&&j==0?vc_real("x_rel",0.0078125,0.9921875):g==1&&j==0?0.03125:g==2&&j==n-1?0.96875:0.25+0.25*(j%3); w.x.push_back(a+(b-a)*c); w.gsi.push_back(W(1,"gsi",j==0,0.5+0.25*j)); w.ita.push_back(W(2,"ita",j==n-1,0.75-0.125*(j%4))); } for(int i=0;i<m;i++){ w.y.push_back(W(3,"y",i==0,g==5||g==7?0.03125:0.5+0.25*i)); w.lam.push_back(W(4,"lam",i==0,g==5||g==7?16:g==6?0.03125:0.75+0.5*i)); w.mu.push_back(W(5,"mu",i==m-1,g==3?0.03125:1.25-0.25*(i%4))); w.s.push_back(W(6,"s",i==0,g==4?0.03125:0.625+0.25*i)); } return w; }
static WK havoc(const PR&p,const SUB&u,int which){ if(which>=1000) return havoc_wide(p,u,which-1000); WK w; int n=p.n,m=p.m; for(int j=0;j<n;j++){ double a=u.al[j],b=u.be[j]; w.x.push_back(hv(vc_nm("x",j),which&1&&j==0,a+(b-a)*(0.25+0.25*(j%3)),(b-a)*0.125)); w.gsi.push_back(hv(vc_nm("gsi",j),which&2&&j==0,0.5+0.25*j,0.25)); w.ita.push_back(hv(vc_nm("ita",j),which&4&&j==n-1,0.75-0.125*(j%4),0.25)); } for(int i=0;i<m;i++){ w.y.push_back(hv(vc_nm("y",i),which&8&&i==0,0.5+0.25*i,0.25)); w.lam.push_back(hv(vc_nm("lam",i),which&16&&i==0,0.75+0.5*i,0.25)); w.mu.push_back(hv(vc_nm("mu",i),which&32&&i==m-1,1.25-0.25*(i%4),0.25)); w.s.push_back(hv(vc_nm("s",i),which&64&&i==0,0.625+0.25*i,0.25)); } return w; }
static void newton_check(SO*o,const PR&p,const SUB&u,const WK&w,const WK&t){ int n=p.n,m=p.m; vc_reach("newton");
    auto D=[](const DV&a,const DV&b){ DV r(a.size()); for(size_t i=0;i<a.size();i++) r[i]=b[i]-a[i]; return r; }; DV dx=D(w.x,t.x),dy=D(w.y,t.y),dl=D(w.lam,t.lam),dg=D(w.gsi,t.gsi),di=D(w.ita,t.ita),dm=D(w.mu,t.mu),ds=D(w.s,t.s); double dz=t.z-w.z,dze=t.zeta-w.zeta;
    double tau=-(dze*w.z+w.zeta*dz)/(w.zeta*w.z-t.eps); vc_le(tau,1,1e-6,"step length at most one"); vc_le(0,tau,1e-9,"step length positive");
    for(int j=0;j<n;j++){ vc_le(u.al[j],t.x[j],1e-9,"trial design above its lower limit"+ix(j)); vc_le(t.x[j],u.be[j],1e-9,"trial design below its upper limit"+ix(j)); vc_le(0,t.gsi[j],1e-9,"multiplier of the lower limit positive"+ix(j)); vc_le(0,t.ita[j],1e-9,"multiplier of the upper limit positive"+ix(j)); } for(int i=0;i<m;i++){ vc_le(0,t.y[i],1e-9,"y positive"+ix(i)); vc_le(0,t.lam[i],1e-9,"lambda positive"+ix(i)); vc_le(0,t.mu[i],1e-9,"mu positive"+ix(i)); vc_le(0,t.s[i],1e-9,"s positive"+ix(i)); } vc_le(0,t.z,1e-9,"z positive"); vc_le(0,t.zeta,1e-9,"zeta positive");
    double e=t.eps,T=1e-5; for(int j=0;j<n;j++){ double P=u.p0[j],Q=u.q0[j]; for(int i=0;i<m;i++){ P+=w.lam[i]*u.p[i][j]; Q+=w.lam[i]*u.q[i][j]; } double l=add(o,j,P,Q,w.x[j])*dx[j]-dg[j]+di[j],r=ad(o,j,P,Q,w.x[j])-w.gsi[j]+w.ita[j]; for(int i=0;i<m;i++) l+=ad(o,j,u.p[i][j],u.q[i][j],w.x[j])*dl[i]; vc_eq(l+tau*r,0,T,"Newton equation of stationarity in x"+ix(j)); vc_eq(dg[j]*(w.x[j]-u.al[j])+w.gsi[j]*dx[j]+tau*(w.gsi[j]*(w.x[j]-u.al[j])-e),0,T,"Newton equation of lower complementarity"+ix(j)); vc_eq(di[j]*(u.be[j]-w.x[j])-w.ita[j]*dx[j]+tau*(w.ita[j]*(u.be[j]-w.x[j])-e),0,T,"Newton equation of upper complementarity"+ix(j)); }
    double la=p.a0-w.zeta,ld=-dze; for(int i=0;i<m;i++){ la-=w.lam[i]*p.a[i]; ld-=dl[i]*p.a[i]; vc_eq(p.d[i]*dy[i]-dl[i]-dm[i]+tau*(p.c[i]+p.d[i]*w.y[i]-w.lam[i]-w.mu[i]),0,T,"Newton equation of stationarity in y"+ix(i)); double g=-u.b[i],gd=0; for(int j=0;j<n;j++){ g+=av(o,j,u.p[i][j],u.q[i][j],w.x[j]); gd+=ad(o,j,u.p[i][j],u.q[i][j],w.x[j])*dx[j]; } vc_eq(gd-p.a[i]*dz-dy[i]+ds[i]+tau*(g-p.a[i]*w.z-w.y[i]+w.s[i]),0,T,"Newton equation of the constraint"+ix(i)); vc_eq(w.mu[i]*dy[i]+w.y[i]*dm[i]+tau*(w.mu[i]*w.y[i]-e),0,T,"Newton equation of y complementarity"+ix(i)); vc_eq(w.lam[i]*ds[i]+w.s[i]*dl[i]+tau*(w.lam[i]*w.s[i]-e),0,T,"Newton equation of constraint complementarity"+ix(i)); }
    vc_eq(ld+tau*la,0,T,"Newton equation of stationarity in z"); }
static void newton(int n,int m,int which){ PR p=prob(n,m); SO o(n,m,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); const void*base=nullptr; bool done=false; WK w; HOOK h=[&](SO*s,const WK&k,const SUB&u,const void*id,std::function<void(const WK&)> set)->double{
        if(!base){ if(!initial(k,u)) stop(); base=id; return 1.0; }
        if(!done){ if(id!=base) return 0.5; w=havoc(p,u,which); w.z=k.z; w.zeta=k.zeta; set(w); done=true; return 0.5*k.eps; }   // iterate replaced; eps shrinks
        if(id==base) return 1.0; newton_check(s,p,u,w,k); stop(); return 0; };
    g_hook=&h; DV xk=p.x; o.UpdateVariables(xk,1.0,p.df,p.g,p.dg); }
// line search and continuation with arbitrary outcomes of the residual norm
static void logic(int n,int m,int limit,int rejects=0,int stalls=0){ int iter=0; PR p=prob(n,m); SO o(n,m,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); const void*base=nullptr; WK cur,first; int state=0,calls=0,trials=0; bool ok1=true,ok2=true,ok3=true,acc=true; double eps=1.0; DV lastx; double fin=-1; HOOK h=[&](SO*,const WK&k,const SUB&u,const void*id,std::function<void(const WK&)>)->double{
        calls++; if(!base){ if(!initial(k,u)) stop(); base=id; }
        if(k.eps!=eps) ok1=false;
        if(id==base&&state==0){ cur=k; state=1; trials=0; return 1.0; }                                  // residual at the iterate
        if(id!=base){ if(state!=1){ stop(); } if(trials==0) first=k; else for(int j=0;j<n;j++) if(std::fabs((k.x[j]-cur.x[j])-(first.x[j]-cur.x[j])*std::pow(0.5,trials))>1e-9) ok2=false; trials++; lastx=k.x; acc=true; if(trials<=2&&calls<limit) acc=vc_choose(vc_nm("accept",calls),0,1); if(iter==0&&trials<=rejects) acc=false; return acc?0.5:2.0; }
        if(!acc&&trials<50) ok2=false; for(int j=0;j<n;j++) if(k.x[j]!=lastx[j]) ok3=false; state=0; bool red=true; if(calls<limit) red=vc_choose(vc_nm("reduce",calls),0,1); if(iter++<stalls) red=false; fin=red?0.5*eps:0.95*eps; if(red) eps*=0.1; lastx=k.x; return fin; };
    g_hook=&h; DV xk=p.x; o.UpdateVariables(xk,1.0,p.df,p.g,p.dg); vc_reach("logic"); vc_true(ok1,"barrier parameter shrinks exactly when the residual is below 0.9 eps"); vc_true(ok2,"rejected steps are halved, accepted ones taken"); vc_true(ok3,"the iterate becomes the accepted trial"); vc_true(eps<=1e-7*1.0000001,"the loop ends only when the barrier parameter is small"); for(int j=0;j<n;j++) vc_true(xk[j]==lastx[j],"the result is the last iterate"); }
