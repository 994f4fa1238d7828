// VTK export writes a well-formed file holding exactly the model; import returns exactly what the file holds, in any order of requests.
#include "io.h"
#include "common.h"
#include "PrePost/Export/ExportToVTK.h"
#include "PrePost/Import/ImportFromVTK.h"
typedef std::vector<Vector<double>> MN; typedef std::vector<std::vector<int>> ME;
// independent reader of legacy VTK text
struct Rd { std::string s; size_t p=0; bool ok=true; void skip(){ while(p<s.size()&&vc_ws(s[p])) p++; } std::string line(){ std::string o; while(p<s.size()&&s[p]!='\n') o+=s[p++]; if(p<s.size()) p++; return o; } std::string word(){ skip(); std::string o; while(p<s.size()&&!vc_ws(s[p])) o+=s[p++]; return o; } double num(){ skip(); double r=0; size_t k=vc_num(s,p,&r,0,false); if(!k) ok=false; p+=k; return r; } int integer(){ skip(); int r=0; size_t k=vc_num(s,p,0,&r,true); if(!k) ok=false; p+=k; return r; } bool end(){ skip(); return p>=s.size(); } };
static bool want(Rd&r,const std::string&w,const std::string&L){ std::string g=r.word(); bool k=g==w; vc_true(k,L+": keyword "+w); if(!k) r.ok=false; return k; }
static bool wanti(Rd&r,int v,const std::string&L){ int g=r.integer(); bool k=r.ok&&g==v; vc_true(k,L); if(!k) r.ok=false; return k; }
static void header(Rd&r){ std::string a=r.line(); vc_true(a.compare(0,22,"# vtk DataFile Version")==0,"first line is the VTK signature"); r.line(); vc_true(r.line()=="ASCII","third line is ASCII"); vc_true(r.line()=="DATASET UNSTRUCTURED_GRID","fourth line is the data set type"); }
struct Mod { MN n; DM x; ME e; std::vector<int> ty; int dim; }; static Mod model(int N,int dim,int s0){ Mod m; m.dim=dim; m.x=symm("x",N,dim); for(auto&v:m.x) m.n.push_back(tov(v)); static const int c[4]={0,2,1,0}; for(int k=0;k<2;k++){ std::vector<int> e; for(int j=0;j<(k?2:s0);j++) e.push_back((c[j]+k)%N); m.e.push_back(e); m.ty.push_back(k?3:9); } return m; }
static void points(Rd&r,const Mod&m){ if(!want(r,"POINTS","points")||!wanti(r,(int)m.x.size(),"number of points")) return; r.word(); for(auto&v:m.x) for(int c=0;c<3;c++) vc_eq(r.num(),c<m.dim?v[c]:0.0,1e-7,"point coordinate, padded to three"); vc_true(r.ok,"point rows"); }
static void cells(Rd&r,const Mod&m){ int t=0; for(auto&e:m.e) t+=(int)e.size()+1; if(!want(r,"CELLS","cells")||!wanti(r,(int)m.e.size(),"number of cells")||!wanti(r,t,"length of the cell list")) return; for(auto&e:m.e){ if(!wanti(r,(int)e.size(),"cell size")) return; for(int q:e) if(!wanti(r,q,"cell node")) return; } }
static void types(Rd&r,const Mod&m){ if(!want(r,"CELL_TYPES","types")||!wanti(r,(int)m.ty.size(),"number of cell types")) return; for(int q:m.ty) if(!wanti(r,q,"cell type")) return; }
static void scal(Rd&r,const std::string&nm,const DV&v){ if(!want(r,"SCALARS","scalars")||!want(r,nm,"scalars")||!want(r,"float","scalars")) return; r.skip(); if(r.p<r.s.size()&&r.s[r.p]=='1') r.word(); if(!want(r,"LOOKUP_TABLE","scalars")) return; r.word(); for(double q:v) vc_eq(r.num(),q,1e-7,"scalar "+nm); vc_true(r.ok,"scalar rows"); }
static void vect(Rd&r,const std::string&nm,const DM&v){ if(!want(r,"VECTORS","vectors")||!want(r,nm,"vectors")||!want(r,"float","vectors")) return; for(auto&q:v) for(int c=0;c<3;c++) vc_eq(r.num(),c<(int)q.size()?q[c]:0.0,1e-7,"vector "+nm); vc_true(r.ok,"vector rows"); }
//@ time=200 jobs=2 | export: 1..4 points of 1..3 coordinates, cells of 1..4 nodes, point scalars/vectors and cell scalars with every value; sections with and without data header
VC_ENTRY export_all(){ int N=vc_choose("N",1,4),dim=vc_choose("dim",1,3),s0=vc_choose("size0",1,4); Mod m=model(N,dim,s0); DV s=symv("s",N),c=symv("c",2),t=symv("t",2); int vd=vc_choose("vdim",1,3); DM u=symm("u",N,vd); MN U; for(auto&v:u) U.push_back(tov(v)); MN S1; DV s1=symv("w",N); for(double q:s1) S1.push_back(tov(DV{q}));
    { std::ofstream f(vc_path("o.vtk")); f.precision(17); MakeHeadderToVTK(f); AddPointsToVTK(m.n,f); AddElementToVTK(m.e,f); AddElementTypes(m.ty,f); AddPointVectors(U,"u",f,true); AddPointScalers(s,"s",f,false); AddPointScalers(S1,"w",f,false); AddElementScalers(c,"rho",f,true); AddElementScalers(t,"tau",f,false); f.close(); }
    Rd r; r.s=vc_get("o.vtk"); vc_reach("export"); header(r); points(r,m); if(r.ok) cells(r,m); if(r.ok) types(r,m); if(!r.ok) return; if(!want(r,"POINT_DATA","point data")||!wanti(r,N,"number of point data")) return; vect(r,"u",u); if(r.ok) scal(r,"s",s); if(r.ok) scal(r,"w",s1); if(!r.ok||!want(r,"CELL_DATA","cell data")||!wanti(r,2,"number of cell data")) return; scal(r,"rho",c); if(r.ok) scal(r,"tau",t); vc_true(r.end(),"nothing after the last section"); }
//@ time=100 | export with scalars (of either kind) opening the point data section
VC_ENTRY export_headers(){ int N=2,k=vc_choose("kind",0,1); DV s=symv("s",N); MN S; for(double q:s) S.push_back(tov(DV{q})); DM u=symm("u",N,2); MN U; for(auto&v:u) U.push_back(tov(v)); { std::ofstream f(vc_path("o.vtk")); f.precision(17); if(k) AddPointScalers(S,"a",f,true); else AddPointScalers(s,"a",f,true); AddPointVectors(U,"b",f,false); f.close(); } Rd r; r.s=vc_get("o.vtk"); vc_reach("headers"); if(!want(r,"POINT_DATA","point data")||!wanti(r,N,"number of point data")) return; scal(r,"a",s); if(r.ok) vect(r,"b",u); vc_true(r.end(),"nothing else"); }
struct Dat { Mod m; DV ps,pt,cs,ct; DM pu,pv,cu; std::string txt; };
static std::string num3(const DV&v){ std::string s; for(int c=0;c<3;c++) s+=(c<(int)v.size()?vc_r(v[c]):std::string("0"))+"\t"; return s+"\n"; }
static std::string sc(const std::string&nm,const DV&v){ std::string s="SCALARS "+nm+" float\nLOOKUP_TABLE default\n"; for(double q:v) s+=vc_r(q)+"\n"; return s; } static std::string ve(const std::string&nm,const DM&v){ std::string s="VECTORS "+nm+" float\n"; for(auto&q:v) s+=num3(q); return s; }
static Dat data(int dim,bool cellfirst){ Dat d; int N=3; d.m=model(N,3,3); d.m.dim=dim; d.ps=symv("ps",N); d.pt=symv("pt",N); d.cs=symv("cs",2); d.ct=symv("ct",2); d.pu=symm("pu",N,3); d.pv=symm("pv",N,3); d.cu=symm("cu",2,3);
    std::string s="# vtk DataFile Version 4.1\nvtk output\nASCII\nDATASET UNSTRUCTURED_GRID\n\nPOINTS\t"+std::to_string(N)+"\tfloat\n"; for(auto&v:d.m.x) s+=num3(v); int t=0; for(auto&e:d.m.e) t+=(int)e.size()+1; s+="\nCELLS "+std::to_string(d.m.e.size())+"\t"+std::to_string(t)+"\n"; for(auto&e:d.m.e){ s+=std::to_string(e.size())+"\t"; for(int q:e) s+=vc_i(q)+"\t"; s+="\n"; } s+="\nCELL_TYPES\t2\n"; for(int q:d.m.ty) s+=std::to_string(q)+"\n";
    std::string P="\nPOINT_DATA\t"+std::to_string(N)+"\n"+sc("rho2",d.ps)+ve("disp_x",d.pu)+sc("rho",d.pt)+ve("disp",d.pv),C="\nCELL_DATA\t2\n"+sc("rho",d.ct)+ve("disp",d.cu)+sc("rho2",d.cs); d.txt=s+(cellfirst?C+P:P+C); return d; }
static void eqN(MN g,const DM&w,int dim,const std::string&L){ vc_true(g.size()==w.size(),L+": count"); if(g.size()!=w.size()) return; for(size_t i=0;i<w.size();i++) eqv(g[i],DV(w[i].begin(),w[i].begin()+dim),L); }
static void eqS(const DV&g,const DV&w,const std::string&L){ vc_true(g.size()==w.size(),L+": count"); if(g.size()==w.size()) for(size_t i=0;i<w.size();i++) vc_eq(g[i],w[i],1e-7,L); }
static void eqE(const ME&g,const ME&w,const std::string&L){ vc_true(g.size()==w.size(),L+": count"); if(g.size()!=w.size()) return; for(size_t i=0;i<w.size();i++){ vc_true(g[i].size()==w[i].size(),L+": size"); if(g[i].size()==w[i].size()) for(size_t j=0;j<w[i].size();j++) vc_true(g[i][j]==w[i][j],L+": node"); } }
static void request(ImportModelFromVTK<double>&im,const Dat&d,int k){ switch(k){ case 0: eqN(im.ImportPOINTS(),d.m.x,d.m.dim,"points"); break; case 1: eqE(im.ImportCELLS(),d.m.e,"cells"); break; case 2: eqS(im.ImportPOINTSCALARS("rho2"),d.ps,"point scalars s"); break; case 3: eqS(im.ImportPOINTSCALARS("rho"),d.pt,"point scalars t"); break; case 4: eqN(im.ImportPOINTVECTORS("disp_x"),d.pu,d.m.dim,"point vectors u"); break; case 5: eqN(im.ImportPOINTVECTORS("disp"),d.pv,d.m.dim,"point vectors v"); break; case 6: eqS(im.ImportCELLSCALARS("rho2"),d.cs,"cell scalars s"); break; case 7: eqS(im.ImportCELLSCALARS("rho"),d.ct,"cell scalars t"); break; default: eqN(im.ImportCELLVECTORS("disp"),d.cu,d.m.dim,"cell vectors u"); } }
//@ time=300 jobs=4 | import: every history of 2 requests out of 9 (repeats included), point or cell data first, dimension 1..3, every value
VC_ENTRY import_history(){ int a=vc_choose("first",0,8),b=vc_choose("second",0,8); Dat d=data(vc_choose("dim",1,3),vc_choose("cellfirst",0,1)); vc_put("i.vtk",d.txt); ImportModelFromVTK<double> im(vc_path("i.vtk"),d.m.dim); vc_reach("import"); request(im,d,a); request(im,d,b); }
//@ time=300 jobs=4 | import of everything in file order (names that begin with one another), and requests for thirteen names the file does not hold (empty result, later requests still answered)
VC_ENTRY import_order(){ Dat d=data(2,false); vc_put("i.vtk",d.txt); ImportModelFromVTK<double> im(vc_path("i.vtk"),2); vc_reach("order"); if(vc_choose("absent",0,1)){ static const char*ab[]={"nothing","rh","rho22","ho2","RHO","dis","disp_","isp","disp_x2","x","float","LOOKUP_TABLE","rho float"}; const char*q=ab[vc_choose("name",0,12)]; vc_true(im.ImportPOINTSCALARS(q).empty(),"absent point scalars are empty"); request(im,d,vc_choose("then",0,8)); vc_true(im.ImportCELLVECTORS(q).empty(),"absent cell vectors are empty"); vc_true(im.ImportCELLSCALARS(q).empty(),"absent cell scalars are empty"); vc_true(im.ImportPOINTVECTORS(q).empty(),"absent point vectors are empty"); vc_true(im.ImportCELLVECTORS("disp_x").empty(),"a point field is no cell field"); request(im,d,vc_choose("last",0,8)); } else { static const int o[]={0,1,2,4,3,5,7,8,6}; for(int k:o) request(im,d,k); } }
//@ time=100 | what is exported is imported unchanged: 1..3 points, dimension 1..3
VC_ENTRY roundtrip(){ int N=vc_choose("N",1,3),dim=vc_choose("dim",1,3); Mod m=model(N,dim,3); DV s=symv("s",N),c=symv("c",2); DM u=symm("u",N,dim); MN U; for(auto&v:u) U.push_back(tov(v)); { std::ofstream f(vc_path("r.vtk")); f.precision(17); MakeHeadderToVTK(f); AddPointsToVTK(m.n,f); AddElementToVTK(m.e,f); AddElementTypes(m.ty,f); AddPointVectors(U,"u",f,true); AddPointScalers(s,"s",f,false); AddElementScalers(c,"rho",f,true); f.close(); }
    ImportModelFromVTK<double> im(vc_path("r.vtk"),dim); vc_reach("roundtrip"); eqN(im.ImportPOINTS(),m.x,dim,"points round trip"); eqE(im.ImportCELLS(),m.e,"cells round trip"); eqN(im.ImportPOINTVECTORS("u"),u,dim,"vectors round trip"); eqS(im.ImportPOINTSCALARS("s"),s,"scalars round trip"); eqS(im.ImportCELLSCALARS("rho"),c,"cell scalars round trip"); }
//@ time=200 jobs=2 | a larger model: 10 points of dimension 2 or 3, 11 cells of 1..8 nodes, written, checked independently and read back
VC_ENTRY larger_roundtrip(){ int N=10,dim=vc_choose("dim",2,3); Mod m; m.dim=dim; m.x=symm("x",N,dim,-1000,1000); for(auto&v:m.x) m.n.push_back(tov(v)); static const int ty[9]={0,1,3,5,9,7,22,7,23}; for(int k=0;k<11;k++){ std::vector<int> e; int sz=1+(k*5)%8; for(int j=0;j<sz;j++) e.push_back((k*3+j*7)%N); m.e.push_back(e); m.ty.push_back(ty[sz]); } DV s=symv("s",N,-1000,1000),c=symv("c",11,-1000,1000); DM u=symm("u",N,dim,-1000,1000); MN U; for(auto&v:u) U.push_back(tov(v)); { std::ofstream f(vc_path("r.vtk")); f.precision(17); MakeHeadderToVTK(f); AddPointsToVTK(m.n,f); AddElementToVTK(m.e,f); AddElementTypes(m.ty,f); AddPointVectors(U,"u",f,true); AddPointScalers(s,"s",f,false); AddElementScalers(c,"rho",f,true); f.close(); }
    Rd r; r.s=vc_get("r.vtk"); vc_reach("larger"); header(r); points(r,m); if(r.ok) cells(r,m); if(r.ok) types(r,m); if(r.ok&&want(r,"POINT_DATA","point data")&&wanti(r,N,"number of point data")){ vect(r,"u",u); if(r.ok) scal(r,"s",s); if(r.ok&&want(r,"CELL_DATA","cell data")&&wanti(r,11,"number of cell data")) scal(r,"rho",c); }
    ImportModelFromVTK<double> im(vc_path("r.vtk"),dim); eqS(im.ImportCELLSCALARS("rho"),c,"cell scalars round trip"); eqE(im.ImportCELLS(),m.e,"cells round trip"); eqN(im.ImportPOINTVECTORS("u"),u,dim,"vectors round trip"); eqN(im.ImportPOINTS(),m.x,dim,"points round trip"); eqS(im.ImportPOINTSCALARS("s"),s,"scalars round trip"); }
// numbers of a large model: every seventh is symbolic
static double big(const char*nm,int i,int j){ return (i*3+j)%7==0?vc_real(vc_nm(nm,i,j),-1000,1000):0.25*((i*37+j*11)%97)-9; }
static DM bigm(const char*nm,int n,int d){ DM m(n,DV(d)); for(int i=0;i<n;i++) for(int j=0;j<d;j++) m[i][j]=big(nm,i,j); return m; } static DV bigv(const char*nm,int n){ DV v(n); for(int i=0;i<n;i++) v[i]=big(nm,i,0); return v; }
//@ time=300 jobs=2 | a big model: 70 points, 66 cells of 1..27 nodes, every seventh value symbolic, written, checked independently and read back
VC_ENTRY big_roundtrip(){ int N=70,E=66,dim=vc_choose("dim",2,3); Mod m; m.dim=dim; m.x=bigm("x",N,dim); for(auto&v:m.x) m.n.push_back(tov(v)); static const int szs[9]={3,4,6,8,20,27,2,10,1},tys[9]={5,9,22,23,25,29,3,24,1}; for(int k=0;k<E;k++){ std::vector<int> e; int q=(k*4)%9; for(int j=0;j<szs[q];j++) e.push_back((k*3+j*7)%N); m.e.push_back(e); m.ty.push_back(tys[q]); } DV s=bigv("s",N),c=bigv("c",E); DM u=bigm("u",N,dim); MN U; for(auto&v:u) U.push_back(tov(v)); { std::ofstream f(vc_path("r.vtk")); f.precision(17); MakeHeadderToVTK(f); AddPointsToVTK(m.n,f); AddElementToVTK(m.e,f); AddElementTypes(m.ty,f); AddPointVectors(U,"u",f,true); AddPointScalers(s,"s",f,false); AddElementScalers(c,"rho",f,true); f.close(); }
    Rd r; r.s=vc_get("r.vtk"); vc_reach("big"); header(r); points(r,m); if(r.ok) cells(r,m); if(r.ok) types(r,m); if(r.ok&&want(r,"POINT_DATA","point data")&&wanti(r,N,"number of point data")){ vect(r,"u",u); if(r.ok) scal(r,"s",s); if(r.ok&&want(r,"CELL_DATA","cell data")&&wanti(r,E,"number of cell data")) scal(r,"rho",c); }
    ImportModelFromVTK<double> im(vc_path("r.vtk"),dim); eqS(im.ImportCELLSCALARS("rho"),c,"cell scalars round trip"); eqE(im.ImportCELLS(),m.e,"cells round trip"); eqN(im.ImportPOINTVECTORS("u"),u,dim,"vectors round trip"); eqN(im.ImportPOINTS(),m.x,dim,"points round trip"); eqS(im.ImportPOINTSCALARS("s"),s,"scalars round trip"); }
