// Geometric and interpolation utilities.
#include "common.h"
#include "FEM/Controller/ShapeFunction.h"
#include "FEM/Controller/GaussIntegration.h"
#include "FEM/Controller/NewtonCotesIntegration.h"
#include "FEM/Equation/General.h"
#include "FEM/Equation/Numeric.h"
typedef std::vector<Vector<double>> VX;
static VX nodes(const DM&x){ VX r; for(auto&p:x) r.push_back(tov(p)); return r; }
static double shoelace(const DM&x,const std::vector<int>&e){ double s=0; for(size_t i=0;i<e.size();i++){ auto&p=x[e[i]]; auto&q=x[e[(i+1)%e.size()]]; s+=p[0]*q[1]-p[1]*q[0]; } return s/2; }
//@ time=100 | every quadrilateral/triangle with vertices in [-2,2]^2 (any node permutation of 4): area = shoelace formula
VC_ENTRY area(){ DM x=symm("x",4,2); VX X=nodes(x); int p=vc_choose("p",0,3); std::vector<int> q{p,(p+1)%4,(p+2)%4,(p+3)%4}; vc_reach("area"); double s=shoelace(x,q); vc_eq(Area<double,ShapeFunction4Square,Gauss4Square>(X,q),s,1e-6,"quad area 2x2"); vc_eq(Area<double,ShapeFunction4Square,Gauss1Square>(X,q),s,1e-6,"quad area 1pt"); vc_eq(Area<double,ShapeFunction4Square,Gauss9Square>(X,q),s,1e-6,"quad area 3x3"); std::vector<int> t{p,(p+1)%4,(p+3)%4}; vc_eq(Area<double,ShapeFunction3Triangle,Gauss1Triangle>(X,t),shoelace(x,t),1e-6,"triangle area"); vc_eq(Area<double,ShapeFunction3Triangle,Gauss3Triangle>(X,t),shoelace(x,t),1e-6,"triangle area 3pt"); }
//@ time=100 | every tetrahedron; every affine image of the cube: volume
VC_ENTRY volume(){ DM x=symm("x",4,3); VX X=nodes(x); std::vector<int> e{1,3,0,2}; DM J(3,DV(3)); for(int i=0;i<3;i++) for(int j=0;j<3;j++) J[i][j]=x[e[i]][j]-x[e[3]][j]; double d=det_leibniz(J); vc_reach("volume"); vc_eq(Volume<double,ShapeFunction4Tetrahedron,Gauss1Tetrahedron>(X,e),d/6,1e-6,"tet volume");
    DM h(8,DV(3)); std::vector<int> he(8); for(int i=0;i<8;i++){ Vector<double> P=ShapeFunction8Cubic<double>::Points[i]; for(int j=0;j<3;j++) h[i][j]=x[3][j]+P(0)*J[0][j]+P(1)*J[1][j]+P(2)*J[2][j]; he[i]=i; } VX H=nodes(h); vc_eq(Volume<double,ShapeFunction8Cubic,Gauss8Cubic>(H,he),8*d,1e-5,"hex volume"); vc_eq(Volume<double,ShapeFunction8Cubic,Gauss27Cubic>(H,he),8*d,1e-5,"hex volume 27"); }
//@ time=100 | centroids of 1..4 node elements in 2-D/3-D, any coordinates
VC_ENTRY centroid(){ int n=vc_choose("n",1,4),d=vc_choose("d",2,3); DM x=symm("x",5,d); VX X=nodes(x); std::vector<int> e; for(int i=0;i<n;i++) e.push_back((i*3+1)%5); Vector<double> c=CenterOfGravity(X,e); vc_reach("centroid"); vc_true(c.SIZE()==d,"size"); for(int j=0;j<d;j++){ double s=0; for(int i:e) s+=x[i][j]; vc_eq(c(j)*n,s,TOL,"centroid"); } }
//@ time=200 | Lagrange interpolation on 2..4 symbolic distinct abscissae: cardinality, reproduction, exact derivative
VC_ENTRY lagrange(){ int n=vc_choose("n",2,4); DV xs(n); for(int i=0;i<n;i++) xs[i]=vc_real(vc_nm("x",i),-2+i,-1.5+i); if(vc_choose("rev",0,1)) for(int i=0;i<n/2;i++) std::swap(xs[i],xs[n-1-i]); double x=vc_real("x",-2,2); std::vector<double> N=LagrangeInterpolation(xs,x),D=LagrangeInterpolationDerivative(xs,x); vc_reach("lagrange");
    for(int k=0;k<n;k++){ double s=0,t=0; for(int i=0;i<n;i++){ double p=1; for(int j=0;j<k;j++) p*=xs[i]; s+=N[i]*p; t+=D[i]*p; } double p=1,q=k; for(int j=0;j<k;j++) p*=x; for(int j=0;j<k-1;j++) q*=x; vc_eq(s,p,1e-6,"reproduces polynomials"); vc_eq(t,q,1e-6,"differentiates polynomials"); } for(int k=0;k<n;k++){ std::vector<double> M=LagrangeInterpolation(xs,xs[k]); for(int i=0;i<n;i++) vc_eq(M[i],i==k?1:0,TOL,"cardinality"); } }
//@ time=200 | element<->node averaging on every 2-element connectivity over 4 nodes (each node used), scalar and vector data
VC_ENTRY averaging(){ int a=vc_choose("a",0,3),b=vc_choose("b",0,3); vc_assume(a!=b); std::vector<std::vector<int>> el{{0,1,2,3},{a,b}}; DV ue=symv("e",2),un=symv("n",4); std::vector<double> r=InterpolateNodalFromElemental(4,0.0,ue,el); vc_reach("averaging"); for(int i=0;i<4;i++) vc_eq(r[i],(i==a||i==b)?(ue[0]+ue[1])/2:ue[0],TOL,"nodal average"); std::vector<double> q=InterpolateElementalFromNodal(0.0,un,el); vc_eq(q[0]*4,un[0]+un[1]+un[2]+un[3],TOL,"element average"); vc_eq(q[1]*2,un[a]+un[b],TOL,"element average");
    DM ve=symm("v",2,2),vn=symm("w",4,2); std::vector<Vector<double>> R=InterpolateNodalFromElemental<double,Vector>(4,Vector<double>(2),nodes(ve),el),Q=InterpolateElementalFromNodal<double,Vector>(Vector<double>(2),nodes(vn),el); for(int j=0;j<2;j++){ for(int i=0;i<4;i++) vc_eq(R[i](j),(i==a||i==b)?(ve[0][j]+ve[1][j])/2:ve[0][j],TOL,"nodal average (vector)"); vc_eq(Q[1](j)*2,vn[a][j]+vn[b][j],TOL,"element average (vector)"); } }
//@ time=100 | weak springs: every listed dof of every node gets exactly its own spring; 1..3 nodes, 1..3 dofs
VC_ENTRY weakspring(){ int n=vc_choose("n",1,3),m=vc_choose("m",1,3); DM x=symm("x",3,2); VX X=nodes(x); std::vector<int> el,dl; for(int i=0;i<n;i++) el.push_back(i); for(int j=0;j<m;j++) dl.push_back(2*j+1); double al=vc_real("alpha",0.000000001,1000000); Matrix<double> Ke; std::vector<std::vector<std::pair<int,int>>> ne; WeakSpring<double>(Ke,ne,el,dl,X,al); vc_reach("spring"); vc_true(Ke.ROW()==n*m&&Ke.COL()==n*m&&(int)ne.size()==n,"sizes"); std::vector<int> hit(n*m,0); for(int i=0;i<n;i++){ vc_true((int)ne[i].size()==m,"dofs per node"); for(int j=0;j<m;j++){ vc_true(ne[i][j].first==dl[j],"dof"); int r=ne[i][j].second; vc_true(r>=0&&r<n*m,"row"); if(r>=0&&r<n*m) hit[r]++; } } for(int i=0;i<n*m;i++){ vc_true(hit[i]==1,"each row belongs to one dof"); for(int j=0;j<n*m;j++) vc_eq(Ke(i,j),i==j?al:0,0,"spring matrix"); } }
struct Cub{ double a,b,c,d; double operator()(Vector<double> x)const{ return a+b*x(0)+c*x(0)*x(0)+d*x(0)*x(0)*x(0); } };
//@ time=100 | line integrals of every cubic over every segment
VC_ENTRY lineint(){ double l=vc_real("l",-2,0),h=vc_real("h",0.5,2); Cub f{vc_real("a",-2,2),vc_real("b",-2,2),vc_real("c",-2,2),vc_real("d",-2,2)}; VX X{Vector<double>(std::vector<double>{l}),Vector<double>(std::vector<double>{h})}; std::vector<int> e{0,1}; vc_reach("lineint"); auto P=[&](double x){ return f.a*x+f.b*x*x/2+f.c*x*x*x/3+f.d*x*x*x*x/4; }; double ex=P(h)-P(l); vc_eq(NumericIntegrationOnLine<double,ShapeFunction2Line,Gauss2Line>(X,e,f),ex,1e-6,"Gauss2"); vc_eq(NumericIntegrationOnLine<double,ShapeFunction2Line,NewtonCotes3Line>(X,e,f),ex,1e-6,"Simpson"); vc_eq(NumericIntegrationOnLine<double,ShapeFunction2Line,NewtonCotes5Line>(X,e,f),ex,1e-6,"Boole"); vc_eq(NumericIntegrationOnLine<double,ShapeFunction2Line,NewtonCotes7Line>(X,e,f),ex,1e-6,"NC7"); }
//@ time=200 | averaging on a fan of 7 elements of 2..5 nodes around one node (uneven element sizes, uneven counts), scalar and vector data of any magnitude
VC_ENTRY averaging_fan(){ std::vector<std::vector<int>> el{{0,1,2,3,4},{2,0},{0,3,5},{6,0,1,5},{5,4,0},{0,6,2},{7,0}}; int n=8,m=el.size(); DV ue=symv("e",m,-1000000,1000000),un=symv("n",n,-1000000,1000000); if(vc_choose("tiny",0,1)){ for(auto&x:ue) x*=1e-15; for(auto&x:un) x*=1e-15; } DV s(n,0.0),c(n,0.0),t(m,0.0); for(int i=0;i<m;i++) for(int k:el[i]){ s[k]+=ue[i]; c[k]+=1; t[i]+=un[k]; } vc_reach("fan");
    std::vector<double> r=InterpolateNodalFromElemental(n,0.0,ue,el),q=InterpolateElementalFromNodal(0.0,un,el); for(int i=0;i<n;i++) vc_eq(r[i]*c[i],s[i],1e-30,"nodal average"); for(int i=0;i<m;i++) vc_eq(q[i]*(double)el[i].size(),t[i],1e-30,"element average");
    DM ve(m,DV(2)),vn(n,DV(2)); for(int i=0;i<m;i++){ ve[i]={ue[i],-2*ue[m-1-i]}; } for(int i=0;i<n;i++) vn[i]={un[i],3*un[n-1-i]}; std::vector<Vector<double>> R=InterpolateNodalFromElemental<double,Vector>(n,Vector<double>(2),nodes(ve),el),Q=InterpolateElementalFromNodal<double,Vector>(Vector<double>(2),nodes(vn),el); for(int j=0;j<2;j++){ DV S(n,0.0),T(m,0.0); for(int i=0;i<m;i++) for(int k:el[i]){ S[k]+=ve[i][j]; T[i]+=vn[k][j]; } for(int i=0;i<n;i++) vc_eq(R[i](j)*c[i],S[i],1e-30,"nodal average (vector)"); for(int i=0;i<m;i++) vc_eq(Q[i](j)*(double)el[i].size(),T[i],1e-30,"element average (vector)"); } }
//@ time=200 | one quadrilateral, one 6-node and one 8-node element, tetrahedron and hexahedron scaled by any factor in [1e-6,1e6] (either orientation): area and volume scale with s^2 / s^3 and keep their sign
VC_ENTRY area_scale(){ double s=vc_real("s",1e-6,1e6); int flip=vc_choose("flip",0,1); DM x{{0,0},{2,0.25},{1.75,1.5},{-0.25,1}}; DM xs=x; for(auto&p:xs) for(auto&v:p) v*=s; std::vector<int> e{0,1,2,3}; if(flip) e={0,3,2,1}; VX X=nodes(xs); vc_reach("ascale"); double a=shoelace(x,e); vc_eq(Area<double,ShapeFunction4Square,Gauss4Square>(X,e)/s/s,a,1e-9,"quad area"); std::vector<int> t{e[0],e[1],e[3]}; vc_eq(Area<double,ShapeFunction3Triangle,Gauss1Triangle>(X,t)/s/s,shoelace(x,t),1e-9,"triangle area");
    DM q{{0,0},{2,0.25},{1.75,1.5},{-0.25,1}}; VX X8; std::vector<int> e8; { DM y(8,DV(2)); for(int i=0;i<4;i++){ y[i]=q[e[i]]; y[4+i]={(q[e[i]][0]+q[e[(i+1)%4]][0])/2,(q[e[i]][1]+q[e[(i+1)%4]][1])/2}; } for(auto&p:y) for(auto&v:p) v*=s; X8=nodes(y); for(int i=0;i<8;i++) e8.push_back(i); } vc_eq(Area<double,ShapeFunction8Square,Gauss9Square>(X8,e8)/s/s,a,1e-9,"8-node area");
    DM z{{0,0,0},{1,0.25,0},{0.25,1.5,0.5},{0,0.25,2}}; DM J(3,DV(3)); std::vector<int> te{1,2,3,0}; if(flip) te={2,1,3,0}; for(int i=0;i<3;i++) for(int j=0;j<3;j++) J[i][j]=z[te[i]][j]-z[te[3]][j]; double d=det_leibniz(J); DM zs=z; for(auto&p:zs) for(auto&v:p) v*=s; VX Z=nodes(zs); vc_eq(Volume<double,ShapeFunction4Tetrahedron,Gauss1Tetrahedron>(Z,te)/s/s/s,d/6,1e-9,"tet volume"); DM h(8,DV(3)); std::vector<int> he(8); for(int i=0;i<8;i++){ Vector<double> P=ShapeFunction8Cubic<double>::Points[i]; for(int j=0;j<3;j++) h[i][j]=s*(z[te[3]][j]+P(0)*J[0][j]+P(1)*J[1][j]+P(2)*J[2][j]); he[i]=i; } VX H=nodes(h); vc_eq(Volume<double,ShapeFunction8Cubic,Gauss8Cubic>(H,he)/s/s/s,8*d,1e-8,"hex volume"); vc_eq(Volume<double,ShapeFunction8Cubic,Gauss27Cubic>(H,he)/s/s/s,8*d,1e-8,"hex volume 27"); }
//@ time=100 | centroids of elements of 5..27 nodes (repeated node numbers allowed) in 2-D/3-D, coordinates any in [-2,2] or in [-1e-12,1e-12]
VC_ENTRY centroid_large(){ static const int N[]={5,6,8,9,10,20,27}; int n=N[vc_choose("n",0,6)],d=vc_choose("d",2,3); double sc=vc_choose("tiny",0,1)?1e-12:1.0; DM x=symm("x",7,d); for(auto&p:x) for(auto&v:p) v*=sc; VX X=nodes(x); std::vector<int> e; for(int i=0;i<n;i++) e.push_back((i*3+1)%7); Vector<double> c=CenterOfGravity(X,e); vc_reach("centroidl"); vc_true(c.SIZE()==d,"size"); for(int j=0;j<d;j++){ double s=0; for(int i:e) s+=x[i][j]; vc_eq(c(j)*n/sc,s/sc,1e-9,"centroid"); } }
//@ time=200 | Lagrange interpolation on 5..7 fixed irregular abscissae, any evaluation point: reproduction and exact derivative of all polynomials
VC_ENTRY lagrange_many(){ int n=vc_choose("n",5,7); static const double xx[7]={-1,0.25,-0.5,1.5,0.75,-1.5,2}; DV xs(xx,xx+n); double x=vc_real("x",-2,2); std::vector<double> N=LagrangeInterpolation(xs,x),D=LagrangeInterpolationDerivative(xs,x); vc_reach("lagm"); for(int k=0;k<n;k++){ double s=0,t=0; for(int i=0;i<n;i++){ double p=1; for(int j=0;j<k;j++) p*=xs[i]; s+=N[i]*p; t+=D[i]*p; } double p=1,q=k; for(int j=0;j<k;j++) p*=x; for(int j=0;j<k-1;j++) q*=x; vc_eq(s,p,1e-6,"reproduces polynomials"); vc_eq(t,q,1e-6,"differentiates polynomials"); } }
//@ time=100 | weak springs on elements of 4..9 nodes with 1..6 dofs, stiffness any in [1e-15,1e15]
VC_ENTRY weakspring_large(){ int n=vc_choose("n",4,9),m=vc_choose("m",1,6); VX X; for(int i=0;i<20;i++) X.push_back(Vector<double>(2)); std::vector<int> el,dl; for(int i=0;i<n;i++) el.push_back((7*i+3)%20); for(int j=0;j<m;j++) dl.push_back((5*j+2)%6); double al=vc_real("alpha",1e-15,1e15); Matrix<double> Ke; std::vector<std::vector<std::pair<int,int>>> ne; WeakSpring<double>(Ke,ne,el,dl,X,al); vc_reach("springl"); bool ok=Ke.ROW()==n*m&&Ke.COL()==n*m&&(int)ne.size()==n; vc_true(ok,"sizes"); if(!ok) return; std::vector<int> hit(n*m,0); for(int i=0;i<n;i++){ vc_true((int)ne[i].size()==m,"dofs per node"); for(int j=0;j<(int)ne[i].size();j++){ vc_true(ne[i][j].first==dl[j],"dof"); int r=ne[i][j].second; vc_true(r>=0&&r<n*m,"row"); if(r>=0&&r<n*m) hit[r]++; } } for(int i=0;i<n*m;i++){ vc_true(hit[i]==1,"each row belongs to one dof"); for(int j=0;j<n*m;j++) vc_eq(Ke(i,j),i==j?al:0,0,"spring matrix"); } }
