#define VC_TOL 0
#define VC_LIM 1000000
#include "common.h"
static void shapes(int r,int c,int q){
    DM a=symm("a",r,c),b=symm("b",r,c),d=symm("d",c,q); DV v=symv("v",c),w=symv("w",c); double k=vc_real("k",0.001,1000); if(vc_choose("neg",0,1)) k=-k;
    Matrix<double> A=tom(a),B=tom(b),D=tom(d); Vector<double> V=tov(v),W=tov(w);
    vc_reach("dense");
    eqm(A*D,mmul(a,d),"matmul"); eqv(A*V,mvec(a,v),"matvec"); eqm(A.Transpose(),mtr(a),"transpose");
    eqm((A*D).Transpose(),mmul(mtr(d),mtr(a)),"(AB)^T");
    DM s=a,m=a,n=a,sc=a,dv=a; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ s[i][j]=a[i][j]+b[i][j]; m[i][j]=a[i][j]-b[i][j]; n[i][j]=-a[i][j]; sc[i][j]=k*a[i][j]; dv[i][j]=a[i][j]/k; }
    eqm(A+B,s,"A+B"); eqm(A-B,m,"A-B"); eqm(-A,n,"-A"); eqm(A*k,sc,"A*k"); eqm(k*A,sc,"k*A"); eqm(A/k,dv,"A/k");
    Matrix<double> X=A; X+=B; eqm(X,s,"A+=B"); X=A; X-=B; eqm(X,m,"A-=B"); X=A; X*=k; eqm(X,sc,"A*=k"); X=A; X/=k; eqm(X,dv,"A/=k");
    X=A; X+=X; { DM t=a; for(auto&r1:t) for(auto&x:r1) x=2*x; eqm(X,t,"A+=A"); }
    DV vs=v,vm=v,vn=v,vk=v,vd=v; double dot=0; for(int i=0;i<c;i++){ vs[i]=v[i]+w[i]; vm[i]=v[i]-w[i]; vn[i]=-v[i]; vk[i]=k*v[i]; vd[i]=v[i]/k; dot+=v[i]*w[i]; }
    eqv(V+W,vs,"v+w"); eqv(V-W,vm,"v-w"); eqv(-V,vn,"-v"); eqv(V*k,vk,"v*k"); eqv(k*V,vk,"k*v"); eqv(V/k,vd,"v/k"); vc_eq(V*W,dot,TOL,"v.w");
    Vector<double> Y=V; Y+=W; eqv(Y,vs,"v+=w"); Y=V; Y-=W; eqv(Y,vm,"v-=w"); Y=V; Y*=k; eqv(Y,vk,"v*=k"); Y=V; Y/=k; eqv(Y,vd,"v/=k");
    DM vt(1,v); eqm(V.Transpose(),vt,"v^T"); DM outer(c,DV(c)); for(int i=0;i<c;i++) for(int j=0;j<c;j++) outer[i][j]=v[i]*w[j]; eqm(V*W.Transpose(),outer,"v w^T");
    eqm(A,a,"A unchanged"); eqm(B,b,"B unchanged"); eqm(D,d,"D unchanged"); eqv(V,v,"v unchanged"); eqv(W,w,"w unchanged");
    double vv=0; for(int i=0;i<c;i++) vv+=v[i]*v[i]; double nn=V.Norm(); vc_eq(nn*nn,vv,TOL,"norm^2"); vc_le(0,nn,0,"norm>=0");
    DM dg(c,DV(c,0.0)); for(int i=0;i<c;i++) dg[i][i]=v[i]; eqm(Diagonal(V),dg,"Diagonal");
    DM id(c,DV(c,0.0)); for(int i=0;i<c;i++) id[i][i]=1; eqm(Identity<double>(c),id,"Identity");
}
//@ time=200 | shapes r,c,q in 1..3 (solver case split), all entries in [-2,2]
VC_ENTRY dense_shapes(){ int r=vc_choose("r",1,3),c=vc_choose("c",1,3),q=vc_choose("q",1,3); shapes(r,c,q); }
//@ time=100 | 6x6 by 6x2 and 8x3 by 3x8
VC_ENTRY dense_big(){ if(vc_choose("w",0,1)) shapes(6,6,2); else shapes(8,3,8); }
//@ time=60 | 3-vectors in [-2,2]^3 (|v|>=0.1 for the unit vector)
VC_ENTRY dense_cross(){
    DV a=symv("a",3),b=symv("b",3); Vector<double> A=tov(a),B=tov(b); Vector<double> C=VectorProduct(A,B);
    DV c{a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; eqv(C,c,"cross"); vc_eq(C*A,0,TOL,"cross.a"); vc_eq(C*B,0,TOL,"cross.b");
    double n2=a[0]*a[0]+a[1]*a[1]+a[2]*a[2]; vc_assume_lt(0.01,n2); Vector<double> N=A.Normal(); vc_reach("cross");
    vc_eq(N*N,1,TOL,"|unit|=1"); Vector<double> P=VectorProduct(N,A); for(int i=0;i<3;i++) vc_eq(P(i),0,TOL,"unit parallel"); vc_le(0,N*A,0,"unit same direction");
}
//@ time=100 | shapes 1..3 (+ a 4x5 case), every block/segment position
VC_ENTRY dense_blocks(){
    int r=vc_choose("r",1,4),c=vc_choose("c",1,3),r2=vc_choose("r2",1,2);
    DM a=symm("a",r,c),b=symm("b",r2,c),d=symm("d",r,r2); Matrix<double> A=tom(a),B=tom(b),D=tom(d); vc_reach("blocks");
    DM vs=a; for(auto&x:b) vs.push_back(x); eqm(A.Vstack(B),vs,"Vstack"); DM hs=a; for(int i=0;i<r;i++) for(double x:d[i]) hs[i].push_back(x); eqm(A.Hstack(D),hs,"Hstack");
    for(int i=0;i<r;i++) for(int j=0;j<c;j++) for(int h=1;i+h<=r;h++) for(int w=1;j+w<=c;w++){ DM bl(h,DV(w)); for(int p=0;p<h;p++) for(int q=0;q<w;q++) bl[p][q]=a[i+p][j+q]; eqm(A.Block(i,j,h,w),bl,"Block"); }
    if(r>1&&c>1) for(int i=0;i<r;i++) for(int j=0;j<c;j++){ DM bl; for(int p=0;p<r;p++) if(p!=i){ bl.push_back({}); for(int q=0;q<c;q++) if(q!=j) bl.back().push_back(a[p][q]); } eqm(A.Cofactor(i,j),bl,"Cofactor"); }
    DV v=symv("v",r),u=symv("u",r2); Vector<double> V=tov(v),U=tov(u); DV vu=v; for(double x:u) vu.push_back(x); eqv(V.Vstack(U),vu,"v.Vstack");
    for(int i=0;i<r;i++) for(int j=i+1;j<=r;j++) eqv(V.Segment(i,j),DV(v.begin()+i,v.begin()+j),"Segment");
    Matrix<double> VM(V); DM col(r,DV(1)); for(int i=0;i<r;i++) col[i][0]=v[i]; eqm(VM,col,"Matrix(v)"); eqv(Vector<double>(VM),v,"Vector(M)"); eqv(Vector<double>(v),v,"Vector(std::vector)");
    eqv(Vector<double>({v[0],u[0],v[0]}),{v[0],u[0],v[0]},"Vector{..}");
}
//@ time=100 | larger shapes: 12x10 by 10x9 (products, transpose, sums), vectors of length 17
VC_ENTRY dense_larger(){ int r=12,c=10,q=9; DM a=symm("a",r,c),b=symm("b",r,c),d=symm("d",c,q); DV v=symv("v",c); Matrix<double> A=tom(a),B=tom(b),D=tom(d); Vector<double> V=tov(v); vc_reach("larger"); eqm(A*D,mmul(a,d),"matmul"); eqv(A*V,mvec(a,v),"matvec"); eqm(A.Transpose(),mtr(a),"transpose"); DM s=a,m=a; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ s[i][j]+=b[i][j]; m[i][j]-=b[i][j]; } eqm(A+B,s,"A+B"); eqm(A-B,m,"A-B"); eqm(A.Vstack(B),[&]{ DM t=a; for(auto&x:b) t.push_back(x); return t; }(),"Vstack"); eqm(A.Hstack(B),[&]{ DM t=a; for(int i=0;i<r;i++) for(double x:b[i]) t[i].push_back(x); return t; }(),"Hstack");
    DV w=symv("w",17),u=symv("u",17); double dot=0; DV su=w; for(int i=0;i<17;i++){ dot+=w[i]*u[i]; su[i]+=u[i]; } Vector<double> W=tov(w),U=tov(u); vc_eq(W*U,dot,TOL,"dot"); eqv(W+U,su,"sum"); eqv(W.Segment(3,16),DV(w.begin()+3,w.begin()+16),"Segment"); }
//@ time=120 | one symbolic factor k in [1e-12,1e12] (and its negative) with fixed operands, and unit vectors / norms of vectors scaled by any s in [1e-9,1e9]: no magnitude is treated specially
VC_ENTRY dense_magnitude(){ double k=vc_real("k",1e-12,1e12); if(vc_choose("neg",0,1)) k=-k; DM a{{1.5,-2,0.25},{0,3,-0.5}}; DV v{0.75,-1.25,2}; Matrix<double> A=tom(a); Vector<double> V=tov(v); DM m=a,d=a; for(int i=0;i<2;i++) for(int j=0;j<3;j++){ m[i][j]=k*a[i][j]; d[i][j]=a[i][j]/k; } DV vm=v,vd=v; for(int i=0;i<3;i++){ vm[i]=k*v[i]; vd[i]=v[i]/k; } vc_reach("magnitude");
    eqm(A*k,m,"A*k"); eqm(k*A,m,"k*A"); eqm(A/k,d,"A/k"); { Matrix<double> X=A; X*=k; eqm(X,m,"A*=k"); X=A; X/=k; eqm(X,d,"A/=k"); } eqv(V*k,vm,"v*k"); eqv(k*V,vm,"k*v"); eqv(V/k,vd,"v/k"); { Vector<double> X=V; X*=k; eqv(X,vm,"v*=k"); X=V; X/=k; eqv(X,vd,"v/=k"); }
    eqv(tom(m)*V,[&]{ DV t=mvec(a,v); for(auto&x:t) x*=k; return t; }(),"(kA)v"); eqv(A*tov(vm),[&]{ DV t=mvec(a,v); for(auto&x:t) x*=k; return t; }(),"A(kv)"); double vv=0; for(double x:v) vv+=x*x; vc_eq(tov(vm)*V,k*vv,TOL,"(kv).v"); }
//@ time=120 | vectors (s v) for any s in [1e-9,1e9] and two v: norm is s|v|, the unit vector is v/|v|
VC_ENTRY dense_norm(){ double s=vc_real("s",1e-9,1e9); int w=vc_choose("w",0,1); DV v=w?DV{0.6,0,-0.8}:DV{2.0,-1.0,2.0}; double l=w?1.0:3.0; DV sv=v; for(auto&x:sv) x*=s; Vector<double> V=tov(sv); vc_reach("norm"); double n=V.Norm(); vc_eq(n/s,l,1e-12,"|s v| = s |v|"); Vector<double> N=V.Normal(); for(int i=0;i<3;i++) vc_eq(N(i),v[i]/l,1e-12,"unit vector"); }
