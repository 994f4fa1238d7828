// CSV importers: every row and column of the file reaches the model, in order, with the right index.
#include "io.h"
#include "common.h"
#include "PrePost/Import/ImportFromCSV.h"
typedef std::vector<std::pair<std::pair<int,int>,double>> FL;
// layout variants of the same content: line ending, final newline, blank line, header text
struct Lay { std::string nl,head; bool fin,blank; }; static Lay lay(){ Lay l; int k=vc_choose("layout",0,4); l.nl=k==1?"\r\n":"\n"; l.fin=k!=2; l.blank=k==3; l.head=k==4?"":"ID,x,y"; return l; }
static std::string file(const Lay&l,const std::vector<std::string>&rows){ std::string s=l.head+l.nl; for(size_t i=0;i<rows.size();i++){ s+=rows[i]; if(i+1<rows.size()||l.fin) s+=l.nl; if(l.blank&&i==0) s+=l.nl; } return s; }
static int ids(int i){ static const int t[]={7,0,123}; return t[i]; }
//@ time=200 jobs=2 | node file: 0..3 rows, 1..3 coordinates, five layouts (CRLF, no final newline, blank line, empty header), every value; appended to existing nodes
VC_ENTRY nodes(){ Lay l=lay(); int R=vc_choose("rows",0,3),C=vc_choose("cols",1,3); DM x=symm("x",R,C); std::vector<std::string> rows; for(int i=0;i<R;i++){ std::string s=vc_i(vc_int(vc_nm("id",i),0,100000)); for(int j=0;j<C;j++) s+=","+vc_r(x[i][j]); rows.push_back(s); } vc_put("f.csv",file(l,rows)); std::vector<Vector<double>> n; n.push_back(tov(DV{5,6})); bool ok=ImportNodesFromCSV(n,vc_path("f.csv")); vc_reach("nodes"); vc_true(ok,"node file read"); vc_true((int)n.size()==R+1,"one node per row"); if((int)n.size()!=R+1) return; eqv(n[0],DV{5,6},"existing node kept"); for(int i=0;i<R;i++) eqv(n[i+1],x[i],"node row"); }
//@ time=200 jobs=2 | element file: 0..3 rows of 1..4 node numbers (any), five layouts
VC_ENTRY elements(){ Lay l=lay(); int R=vc_choose("rows",0,3); std::vector<std::vector<int>> w(R); std::vector<std::string> rows; for(int i=0;i<R;i++){ int C=i==0?vc_choose("cols",1,4):3; std::string s=vc_i(ids(i)); for(int j=0;j<C;j++){ w[i].push_back(vc_int(vc_nm("e",i,j),0,1000000)); s+=","+vc_i(w[i][j]); } rows.push_back(s); } vc_put("f.csv",file(l,rows)); std::vector<std::vector<int>> e(1,{9}); bool ok=ImportElementsFromCSV(e,vc_path("f.csv")); vc_reach("elements"); vc_true(ok,"element file read"); vc_true((int)e.size()==R+1&&e[0].size()==1&&e[0][0]==9,"one element per row, appended"); if((int)e.size()!=R+1) return; for(int i=0;i<R;i++){ vc_true(e[i+1].size()==w[i].size(),"element size"); if(e[i+1].size()==w[i].size()) for(size_t j=0;j<w[i].size();j++) vc_true(e[i+1][j]==w[i][j],"element node"); } }
static void cond(bool neumann){ Lay l=lay(); int R=vc_choose("rows",0,2); FL want; std::vector<std::string> rows; for(int i=0;i<R;i++){ int id=vc_int(vc_nm("id",i),0,1000000),C=i==0?vc_choose("cols",1,3):2; std::string s=vc_i(id); for(int j=0;j<C;j++){ if(vc_choose(vc_nm("free",i,j),0,1)) s+=",free"; else { double v=vc_real(vc_nm("v",i,j),-1000,1000); s+=","+vc_r(v); want.push_back({{id,j},v}); } } rows.push_back(s); } vc_put("f.csv",file(l,rows)); FL f; f.push_back({{3,4},5.0}); bool ok=neumann?ImportNeumannFromCSV(f,vc_path("f.csv")):ImportDirichletFromCSV(f,vc_path("f.csv")); vc_reach("cond"); vc_true(ok,"condition file read"); std::string L=neumann?"load ":"prescribed "; vc_true(f.size()==want.size()+1,L+"count: exactly the entries that are not free"); if(f.size()!=want.size()+1) return; vc_true(f[0].first.first==3&&f[0].first.second==4,"existing entry kept"); for(size_t i=0;i<want.size();i++){ vc_true(f[i+1].first.first==want[i].first.first,L+"node"); vc_true(f[i+1].first.second==want[i].first.second,L+"component"); vc_eq(f[i+1].second,want[i].second,1e-7,L+"value"); } }
//@ time=200 jobs=2 | prescribed-value file: 0..2 rows, 1..3 columns, every combination of free and numeric entries, any node number and value, five layouts
VC_ENTRY dirichlet(){ cond(false); }
//@ time=200 jobs=2 | load file: the same
VC_ENTRY neumann(){ cond(true); }
//@ time=200 jobs=2 | initial values: 1..2 rows on 3 nodes with 1..3 components, rows that give all or only the leading components, every combination of free and numeric entries
VC_ENTRY initial(){ Lay l=lay(); int R=vc_choose("rows",1,2),C=vc_choose("dof",1,3); DM w=symm("u",3,C); std::vector<Vector<double>> u; for(auto&v:w) u.push_back(tov(v)); std::vector<std::string> rows; for(int i=0;i<R;i++){ int id=i==0?vc_choose("id",0,2):1,G=i==0?vc_choose("given",0,C):C; std::string s=vc_i(id); for(int j=0;j<G;j++){ if(vc_choose(vc_nm("free",i,j),0,1)) s+=",free"; else { double v=vc_real(vc_nm("v",i,j),-1000,1000); s+=","+vc_r(v); w[id][j]=v; } } rows.push_back(s); } vc_put("f.csv",file(l,rows)); bool ok=ImportInitialFromCSV(u,vc_path("f.csv")); vc_reach("initial"); vc_true(ok,"initial file read"); for(int i=0;i<3;i++) eqv(u[i],w[i],"initial value: given entries set, all others unchanged"); }
//@ time=200 jobs=2 | periodic pairs: 0..3 rows, any node numbers, five layouts
VC_ENTRY periodic(){ Lay l=lay(); int R=vc_choose("rows",0,3); std::vector<std::pair<int,int>> w,f(1,{1,2}); std::vector<std::string> rows; for(int i=0;i<R;i++){ w.push_back({vc_int(vc_nm("m",i),0,1000000),vc_int(vc_nm("s",i),0,1000000)}); rows.push_back(vc_i(w[i].first)+","+vc_i(w[i].second)); } vc_put("f.csv",file(l,rows)); bool ok=ImportPeriodicFromCSV(f,vc_path("f.csv")); vc_reach("periodic"); vc_true(ok&&(int)f.size()==R+1&&f[0].first==1&&f[0].second==2,"one pair per row, appended"); if((int)f.size()!=R+1) return; for(int i=0;i<R;i++) vc_true(f[i+1].first==w[i].first&&f[i+1].second==w[i].second,"pair master,slave"); }
//@ time=60 | missing file: every importer returns false and leaves its output alone
VC_ENTRY missing(){ std::string p=vc_path("nofile.csv"); std::vector<Vector<double>> n(1,tov(DV{1,2})); std::vector<std::vector<int>> e(1,{4}); FL f; std::vector<std::pair<int,int>> q; vc_reach("missing"); vc_true(!ImportNodesFromCSV(n,p)&&n.size()==1,"nodes"); vc_true(!ImportElementsFromCSV(e,p)&&e.size()==1,"elements"); vc_true(!ImportDirichletFromCSV(f,p)&&f.empty(),"dirichlet"); vc_true(!ImportNeumannFromCSV(f,p)&&f.empty(),"neumann"); vc_true(!ImportInitialFromCSV(n,p),"initial"); eqv(n[0],DV{1,2},"initial unchanged"); vc_true(!ImportPeriodicFromCSV(q,p)&&q.empty(),"periodic"); }
//@ time=200 jobs=2 | larger files: 12 nodes of 3 coordinates, 12 elements of 1..20 nodes, 12 prescribed rows, every value, two layouts
VC_ENTRY larger_files(){ int crlf=vc_choose("crlf",0,1); Lay l; l.nl=crlf?"\r\n":"\n"; l.head="ID,a,b,c"; l.fin=!crlf; l.blank=false; int R=12; std::vector<std::string> rows; DM x=symm("x",R,3,-1000,1000); for(int i=0;i<R;i++) rows.push_back(std::to_string(i)+","+vc_r(x[i][0])+","+vc_r(x[i][1])+","+vc_r(x[i][2])); vc_put("n.csv",file(l,rows)); std::vector<Vector<double>> n; vc_reach("larger"); vc_true(ImportNodesFromCSV(n,vc_path("n.csv"))&&(int)n.size()==R,"one node per row"); for(int i=0;i<R&&i<(int)n.size();i++) eqv(n[i],x[i],"node row");
    rows.clear(); std::vector<std::vector<int>> w(R),e; for(int i=0;i<R;i++){ std::string s=std::to_string(i); int C=i==7?20:1+(i*5)%8; for(int j=0;j<C;j++){ w[i].push_back((i*31+j*17)%1000); s+=","+std::to_string(w[i][j]); } rows.push_back(s); } vc_put("e.csv",file(l,rows)); vc_true(ImportElementsFromCSV(e,vc_path("e.csv"))&&e==w,"every element of the file");
    rows.clear(); FL want,f; for(int i=0;i<R;i++){ std::string s=std::to_string(40-3*i); for(int j=0;j<6;j++) if((i+j)%3==0) s+=",free"; else { double v=vc_real(vc_nm("v",i,j),-1000,1000); s+=","+vc_r(v); want.push_back({{40-3*i,j},v}); } rows.push_back(s); } vc_put("d.csv",file(l,rows)); vc_true(ImportDirichletFromCSV(f,vc_path("d.csv")),"condition file read"); vc_true(f.size()==want.size(),"every entry that is not free"); for(size_t i=0;i<f.size()&&i<want.size();i++){ vc_true(f[i].first==want[i].first,"node and component"); vc_eq(f[i].second,want[i].second,1e-9,"prescribed value"); } }
