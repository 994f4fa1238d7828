#include "common.h"
static void detn(int n){ DM a=symm("a",n,n); Matrix<double> A=tom(a); vc_reach("det"); vc_eq(A.Determinant(),det_leibniz(a),1e-6,"det = Leibniz sum"); vc_eq(A.Transpose().Determinant(),A.Determinant(),1e-6,"det A^T = det A"); }
//@ time=200 | n=1..5, all entries symbolic in [-2,2]
VC_ENTRY det_leib(){ detn(vc_choose("n",1,5)); }
//@ time=200 | n=1..3, A and B symbolic: det(AB)=det A det B
VC_ENTRY det_mult(){ int n=vc_choose("n",1,3); DM a=symm("a",n,n),b=symm("b",n,n); Matrix<double> A=tom(a),B=tom(b); vc_reach("det"); vc_eq((A*B).Determinant(),A.Determinant()*B.Determinant(),1e-6,"det AB = det A det B"); }
static void inv(int n,double lo){ DM a=symm("a",n,n); double d=det_leibniz(a); vc_assume_lt(0.1,lo*d); Matrix<double> A=tom(a); Matrix<double> I=A.Inverse(); vc_reach("inv"); DM id(n,DV(n,0.0)); for(int i=0;i<n;i++) id[i][i]=1; eqm(A*I,id,"A A^-1"); eqm(I*A,id,"A^-1 A"); eqm(A,[&]{return a;}(),"A unchanged"); }
//@ time=300 | n=1..4, every A with |det|>0.1, entries in [-2,2]
VC_ENTRY inverse_id(){ int n=vc_choose("n",1,4); inv(n,vc_choose("sign",0,1)?1.0:-1.0); }
//@ time=300 | n=5: a sparse symbolic 5x5 family (arrow + permutation pattern)
VC_ENTRY inverse_5(){ int n=5; DM a(n,DV(n,0.0)); int p[5]={2,0,4,1,3}; for(int i=0;i<n;i++) a[i][p[i]]=vc_real(vc_nm("p",i),0.5,2); for(int j=0;j<n;j++) a[1][j]+=vc_real(vc_nm("r",j),-1,1); for(int i=0;i<n;i++) if(i!=1) a[i][3]+=vc_real(vc_nm("c",i),-1,1);
    double d=det_leibniz(a); vc_assume_lt(0.05,d); Matrix<double> A=tom(a); Matrix<double> I=A.Inverse(); vc_reach("inv5"); DM id(n,DV(n,0.0)); for(int i=0;i<n;i++) id[i][i]=1; eqm(A*I,id,"A A^-1"); }
static DM fixedn(int n,int w){ DM a(n,DV(n,0.0)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) a[i][j]= w==1? (((i+1)%n==j)?1.5:(i==j+2?0.5:0.0)) : (((i*5+j*3+i*j)%7)-3)*0.25+((n-1-i)==j?2.0:0.0); return a; }
//@ time=200 | n=1..4: two fixed matrices each (full; cyclic with zero diagonal) scaled by any factor in [1e-6,1e6] (determinants down to 1e-24): determinant scales with s^n, inverse times matrix is the identity
VC_ENTRY inv_scale(){ int n=vc_choose("n",1,4),w=vc_choose("w",0,1); double s=vc_real("s",1e-6,1e6); DM a=fixedn(n,w); if(n==1) a[0][0]=0.75; DM as=a; for(auto&r:as) for(auto&x:r) x*=s; Matrix<double> A=tom(as); double p=1; for(int i=0;i<n;i++) p*=s; vc_reach("scale"); vc_eq(A.Determinant()-p*det_leibniz(a),0,1e-20,"determinant of the scaled matrix"); Matrix<double> I=A.Inverse(); DM id(n,DV(n,0.0)); for(int i=0;i<n;i++) id[i][i]=1; eqm(A*I,id,"A A^-1 (scaled)"); eqm(I*A,id,"A^-1 A (scaled)"); }
//@ time=200 | n=6: one row symbolic, other rows fixed and sparse, determinant = Leibniz sum; n=7 permutation patterns with symbolic entries
VC_ENTRY det_larger(){ if(vc_choose("w",0,1)){ DM a=fixedn(6,1); for(int i=0;i<6;i++) a[i][i]+=0.25*i; for(int j=0;j<6;j++) a[2][j]=vc_real(vc_nm("r",j),-2,2); vc_reach("det6"); vc_eq(tom(a).Determinant(),det_leibniz(a),1e-6,"det = Leibniz sum (6)"); } else { static const int p[3][7]={{6,5,4,3,2,1,0},{1,2,3,4,5,6,0},{3,0,5,1,6,2,4}}; int k=vc_choose("perm",0,2); DM a(7,DV(7,0.0)); double e=1; int inv=0; for(int i=0;i<7;i++){ a[i][p[k][i]]=vc_real(vc_nm("d",i),-2,2); e*=a[i][p[k][i]]; for(int j=0;j<i;j++) if(p[k][j]>p[k][i]) inv++; } vc_reach("det7"); vc_eq(tom(a).Determinant(),inv%2?-e:e,1e-6,"det of a signed permutation (7)"); } }
