// White-box unit checks of KKTNorm and solvels (optional harness: names private members).
#define private public
#include SOLVER_H
#undef private
typedef SOLVER<double> SO;
static void kkt(int n,int m,bool sx){ PR p=prob(n,m); SO o(n,m,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); DV L(n),U(n);
#ifdef CONVEX_MMA
    for(int j=0;j<n;j++){ L[j]=o.L[j]=-0.25-0.125*j; U[j]=o.U[j]=1.5+0.25*j; }
#endif
    auto sv=[&](const char*b,int k,double lo,double hi){ DV r; for(int i=0;i<k;i++) r.push_back(vc_real(vc_nm(b,i),lo,hi)); return r; }; DV x; for(int j=0;j<n;j++) x.push_back(sx&&j==0?vc_real("x",0.25,1):0.5+0.25*j); DV y=sv("y",m,0.125,2),lam=sv("lam",m,0.125,2),gsi=sv("gsi",n,0.125,2),ita=sv("ita",n,0.125,2),mu=sv("mu",m,0.125,2),s=sv("s",m,0.125,2),p0=sv("p0",n,0,2),q0=sv("q0",n,0,2),b=sv("b",m,-2,2),al(n,0.125),be(n,1.125); DM P,Q; for(int i=0;i<m;i++){ P.push_back(sv(("p"+std::to_string(i)+"_").c_str(),n,0,2)); Q.push_back(sv(("q"+std::to_string(i)+"_").c_str(),n,0,2)); } double z=vc_real("z",0.125,2),ze=vc_real("zeta",0.125,2),e=vc_real("eps",0.0625,1);
    double v=o.KKTNorm(x,y,z,lam,gsi,ita,mu,ze,s,e,P,Q,p0,q0,al,be,b); vc_reach("kkt"); double S=0; auto sq=[](double a){ return a*a; };
    for(int j=0;j<n;j++){ double pp=p0[j],qq=q0[j]; for(int i=0;i<m;i++){ pp+=lam[i]*P[i][j]; qq+=lam[i]*Q[i][j]; }
#ifdef CONVEX_MMA
        double d=pp/sq(U[j]-x[j])-qq/sq(x[j]-L[j]);
#else
        double d=pp-qq/sq(x[j]);
#endif
        S+=sq(d-gsi[j]+ita[j])+sq(gsi[j]*(x[j]-al[j])-e)+sq(ita[j]*(be[j]-x[j])-e); }
    double la=p.a0-ze; for(int i=0;i<m;i++){ double g=-b[i]; for(int j=0;j<n;j++){
#ifdef CONVEX_MMA
        g+=P[i][j]/(U[j]-x[j])+Q[i][j]/(x[j]-L[j]);
#else
        g+=P[i][j]*x[j]+Q[i][j]/x[j];
#endif
        } la-=lam[i]*p.a[i]; S+=sq(p.c[i]+p.d[i]*y[i]-lam[i]-mu[i])+sq(g-p.a[i]*z-y[i]+s[i])+sq(mu[i]*y[i]-e)+sq(lam[i]*s[i]-e); }
    S+=sq(la)+sq(ze*z-e); vc_le(0,v,1e-9,"residual norm is not negative"); vc_eq(v*v,S,1e-6,"residual norm of the perturbed KKT system"); }
static void sol(int n,bool full){ DM A(n,DV(n)); DV b(n); for(int i=0;i<n;i++){ for(int j=0;j<n;j++) A[i][j]=full||i==j||j==0||i==0?vc_real(vc_nm("A",i,j),-2,2):0.5*(i-j); b[i]=vc_real(vc_nm("b",i),-2,2); } PR p=prob(1,1); SO o(1,1,p.a0,p.a,p.c,p.d,p.xmin,p.xmax); DV x=o.solvels(A,b); vc_reach("solve"); vc_true((int)x.size()==n,"solution size"); if((int)x.size()!=n) return; for(int i=0;i<n;i++){ double s=0; for(int j=0;j<n;j++) s+=A[i][j]*x[j]; vc_eq(s,b[i],1e-6,"A x = b ("+std::to_string(i)+")"); } }
