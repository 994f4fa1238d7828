// The second VTK reader (nodes and elements only).
#include "io.h"
#include "common.h"
#include "PrePost/Import/ImportFromVTK2.h"
//@ time=100 jobs=2 | second reader: 0..3 points, 0..2 cells of 1..4 nodes (any numbers), any order of up to three requests
VC_ENTRY reader2(){ int N=vc_choose("N",0,3),M=vc_choose("M",0,2); DM x=symm("x",N,3); std::vector<std::vector<int>> e(M); int t=0; for(int i=0;i<M;i++){ int k=i==0?vc_choose("s",1,4):2; for(int j=0;j<k;j++) e[i].push_back(vc_int(vc_nm("e",i,j),0,100000)); t+=k+1; }
    std::string s="# vtk DataFile Version 4.1\nvtk output\nASCII\nDATASET UNSTRUCTURED_GRID\n\nPOINTS\t"+std::to_string(N)+"\tfloat\n"; for(auto&v:x) s+=vc_r(v[0])+"\t"+vc_r(v[1])+"\t"+vc_r(v[2])+"\t\n"; s+="\nCELLS "+std::to_string(M)+"\t"+std::to_string(t)+"\n"; for(auto&q:e){ s+=std::to_string(q.size())+"\t"; for(int n:q) s+=vc_i(n)+"\t"; s+="\n"; } s+="\nCELL_TYPES\t"+std::to_string(M)+"\n"; for(int i=0;i<M;i++) s+="9\n"; vc_put("i.vtk",s);
    ImportModelFromVTK<double> im(vc_path("i.vtk")); vc_reach("reader2"); int h=vc_choose("order",0,3); for(int k=0;k<(h<2?2:3);k++){ bool nodes=((k+h)%2)==0; if(nodes){ auto g=im.GenerateNodes(); vc_true((int)g.size()==N,"number of nodes"); if((int)g.size()==N) for(int i=0;i<N;i++) eqv(g[i],x[i],"node"); } else { auto g=im.GenerateElements(); vc_true((int)g.size()==M,"number of elements"); if((int)g.size()==M) for(int i=0;i<M;i++){ vc_true(g[i].size()==e[i].size(),"element size"); if(g[i].size()==e[i].size()) for(size_t j=0;j<e[i].size();j++) vc_true(g[i][j]==e[i][j],"element node"); } } } }
//@ time=200 jobs=2 | second reader: 70 points, 66 cells of 1..27 nodes, every seventh value symbolic
VC_ENTRY big_reader2(){ int N=70,M=66; DM x(N,DV(3)); for(int i=0;i<N;i++) for(int j=0;j<3;j++) x[i][j]=(i*3+j)%7==0?vc_real(vc_nm("x",i,j),-1000,1000):0.25*((i*37+j*11)%97)-9; static const int szs[9]={3,4,6,8,20,27,2,10,1}; std::vector<std::vector<int>> e(M); int t=0; for(int i=0;i<M;i++){ int k=szs[(i*4)%9]; for(int j=0;j<k;j++) e[i].push_back((i*3+j*7)%N); t+=k+1; }
    std::string s="# vtk DataFile Version 4.1\nvtk output\nASCII\nDATASET UNSTRUCTURED_GRID\n\nPOINTS\t"+std::to_string(N)+"\tfloat\n"; for(auto&v:x) s+=vc_r(v[0])+"\t"+vc_r(v[1])+"\t"+vc_r(v[2])+"\t\n"; s+="\nCELLS "+std::to_string(M)+"\t"+std::to_string(t)+"\n"; for(auto&q:e){ s+=std::to_string(q.size())+"\t"; for(int n:q) s+=std::to_string(n)+"\t"; s+="\n"; } s+="\nCELL_TYPES\t"+std::to_string(M)+"\n"; for(int i=0;i<M;i++) s+="9\n"; vc_put("i.vtk",s);
    ImportModelFromVTK<double> im(vc_path("i.vtk")); vc_reach("big reader2"); auto ge=im.GenerateElements(); vc_true(ge==e,"every element"); auto g=im.GenerateNodes(); vc_true((int)g.size()==N,"number of nodes"); if((int)g.size()==N) for(int i=0;i<N;i++) eqv(g[i],x[i],"node"); }
