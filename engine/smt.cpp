#include "smt.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <chrono>
#include <sstream>
Stats*ST; int g_timeout_ms=10000; std::vector<BP> PC; std::vector<std::vector<double>> SAMPLES; int g_smt_log=0;
static int zin=-1,zout=-1; static pid_t zpid=-1,zowner=-1;
static void zstart(){
    int a[2],b[2]; if(pipe2(a,O_CLOEXEC)||pipe2(b,O_CLOEXEC)) return;
    zowner=getpid();
    zpid=fork(); if(zpid==0){ dup2(a[0],0); dup2(b[1],1); int n=open("/dev/null",O_WRONLY); dup2(n,2); execlp("z3-new","z3-new","-in","-smt2",(char*)0); execlp("z3","z3","-in","-smt2",(char*)0); _exit(127); }
    close(a[0]); close(b[1]); zin=a[1]; zout=b[0];
}
void smt_close(){ if(zin>=0&&zowner==getpid()){ close(zin); close(zout); kill(zpid,SIGKILL); int st; waitpid(zpid,&st,0); } else if(zin>=0){ close(zin); close(zout); } zin=zout=-1; zpid=-1; }
static bool zwrite(const std::string&s){ size_t o=0; while(o<s.size()){ ssize_t k=write(zin,s.data()+o,s.size()-o); if(k<=0){ if(errno==EINTR) continue; return false; } o+=k; } return true; }
// read until a line equal to "done"
static bool zread(std::string&out,int ms){
    auto t0=std::chrono::steady_clock::now(); out.clear(); char buf[65536];
    for(;;){ int left=ms-(int)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now()-t0).count(); if(left<=0) return false;
        pollfd p{zout,POLLIN,0}; int r=poll(&p,1,left); if(r<0&&errno==EINTR) continue; if(r<=0) return false; ssize_t k=read(zout,buf,sizeof buf); if(k<=0) return false; out.append(buf,k);
        size_t q=out.rfind("vcdone"); if(q!=std::string::npos){ out.resize(q); return true; } }
}
static std::string num(const mpq_class&q){ mpz_class n=q.get_num(),d=q.get_den(); bool neg=n<0; if(neg) n=-n; std::string s= d==1? n.get_str()+".0" : "(/ "+n.get_str()+".0 "+d.get_str()+".0)"; return neg?"(- "+s+")":s; }
static std::string vname(VarId v){ return (VARS[v].isInt?"(to_real v":"v")+std::to_string(v)+(VARS[v].isInt?")":""); }
static bool LINABS=false; static std::set<MonoId> LMON;
static void pp(std::ostringstream&o,const Poly&p){
    if(LINABS){ if(p.zero()){ o<<"0.0"; return; } if(p.t.size()>1) o<<"(+"; for(auto&t:p.t){ o<<" "; if(t.first==0){ o<<num(t.second); continue; } auto&f=MT.m[t.first].f; std::string v; if(f.size()==1&&f[0].second==1) v=vname(f[0].first); else { LMON.insert(t.first); v="m"+std::to_string(t.first); } if(t.second==1) o<<v; else o<<"(* "<<num(t.second)<<" "<<v<<")"; } if(p.t.size()>1) o<<")"; return; }
    if(p.zero()){ o<<"0.0"; return; }
    if(p.t.size()>1) o<<"(+";
    for(auto&t:p.t){ o<<" "; auto&f=MT.m[t.first].f; if(f.empty()){ o<<num(t.second); continue; }
        bool one=t.second==1; uint32_t n=0; for(auto&x:f) n+=x.second; if(one&&n==1){ o<<vname(f[0].first); continue; }
        o<<"(*"; if(!one) o<<" "<<num(t.second); for(auto&x:f) for(uint32_t i=0;i<x.second;i++) o<<" "<<vname(x.first); o<<")"; }
    if(p.t.size()>1) o<<")";
}
static void pb(std::ostringstream&o,const BP&b){
    switch(b->k){ case BExpr::T: o<<"true"; break; case BExpr::F: o<<"false"; break;
    case BExpr::LT: o<<"(< "; pp(o,b->p); o<<" 0.0)"; break; case BExpr::LE: o<<"(<= "; pp(o,b->p); o<<" 0.0)"; break; case BExpr::EQ: o<<"(= "; pp(o,b->p); o<<" 0.0)"; break;
    case BExpr::NOT: o<<"(not "; pb(o,b->a); o<<")"; break; case BExpr::AND: o<<"(and "; pb(o,b->a); o<<" "; pb(o,b->b); o<<")"; break; case BExpr::OR: o<<"(or "; pb(o,b->a); o<<" "; pb(o,b->b); o<<")"; break; }
}
static void atomDeps(VarId v,std::set<VarId>&s){ auto&x=VARS[v]; pvars(x.red,s); pvars(x.num,s); if(x.b) bvars(x.b,s); for(auto&a:x.args){ pvars(a->n,s); for(auto&d:a->d) pvars(DT.p[d.first],s); } }
static SmtRes run(const std::string&q,const std::vector<VarId>&mv,std::vector<double>*model,int tmo){
    if(zin<0||zowner!=getpid()){ if(zin>=0){ close(zin); close(zout);} zin=-1; zstart(); }
    auto t0=std::chrono::steady_clock::now(); __sync_fetch_and_add(&ST->queries,1);
    if(g_smt_log){ FILE*f=fopen("/tmp/symx_last.smt2","a"); if(f){ fprintf(f,"; ---- %d\n%s",getpid(),q.c_str()); fclose(f);} }
    std::string full="(reset)\n"+q+"(check-sat)\n(echo \"vcdone\")\n",out; SmtRes r=UNKNOWN;
    if(!zwrite(full)||!zread(out,tmo*2+3000)){ smt_close(); }
    else { if(out.find("(error")!=std::string::npos) r=UNKNOWN; else if(out.find("unsat")!=std::string::npos) r=UNSAT; else if(out.find("unknown")!=std::string::npos||out.find("timeout")!=std::string::npos) r=UNKNOWN; else if(out.find("sat")!=std::string::npos) r=SAT; }
    if(r==SAT&&model&&!mv.empty()){
        std::ostringstream g; g<<"(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n(get-value ("; for(auto v:mv) g<<" v"<<v; g<<"))\n(echo \"vcdone\")\n";
        if(zwrite(g.str())&&zread(out,15000)){
            size_t p=0; for(auto v:mv){ std::string key="(v"+std::to_string(v)+" "; size_t k=out.find(key,p); if(k==std::string::npos) k=out.find(key); if(k==std::string::npos) continue; size_t i=k+key.size(); 
                // parse s-expr value
                std::function<double()> ev=[&]()->double{ while(i<out.size()&&isspace(out[i])) i++; if(out[i]=='('){ i++; while(isspace(out[i])) i++; char op=out[i]; i++; double a=ev(); while(i<out.size()&&isspace(out[i])) i++; double r2; if(out[i]!=')'){ double b=ev(); r2= op=='/'?a/b: op=='-'?a-b: op=='+'?a+b:a*b; } else r2= op=='-'?-a:a; while(i<out.size()&&out[i]!=')') i++; i++; return r2; }
                    size_t j=i; while(j<out.size()&&(isdigit(out[j])||out[j]=='.'||out[j]=='e'||out[j]=='E'||(out[j]=='-'&&j>i))) j++; double x=atof(out.substr(i,j-i).c_str()); if(j<out.size()&&out[j]=='?') j++; i=j; return x; };
                if(v<model->size()) (*model)[v]=ev(); p=k; }
        } else { smt_close(); }
    }
    long us=std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now()-t0).count();
    __sync_fetch_and_add(&ST->solver_us,us); if(r==SAT) __sync_fetch_and_add(&ST->sat,1); else if(r==UNSAT) __sync_fetch_and_add(&ST->unsat,1); else __sync_fetch_and_add(&ST->unknown,1);
    return r;
}
SmtRes smt_query(const std::vector<BP>&cs,bool usePC,std::vector<double>*model,int tmo){
    std::set<VarId> vs; for(auto&c:cs) bvars(c,vs);
    std::vector<BP> use; if(usePC){ std::vector<std::set<VarId>> pv(PC.size()); std::vector<char> in(PC.size(),0); for(size_t i=0;i<PC.size();i++){ bvars(PC[i],pv[i]); std::vector<VarId> st(pv[i].begin(),pv[i].end()); while(!st.empty()){ VarId v=st.back(); st.pop_back(); std::set<VarId> d; atomDeps(v,d); for(auto w:d) if(pv[i].insert(w).second) st.push_back(w); } } // a condition on an atom also constrains what the atom is built from
        bool ch=true; std::set<VarId> done; while(ch){ ch=false; for(auto v:std::set<VarId>(vs)) if(!done.count(v)){ done.insert(v); size_t n=vs.size(); atomDeps(v,vs); if(vs.size()!=n) ch=true; }
            for(size_t i=0;i<PC.size();i++) if(!in[i]){ bool hit=false; for(auto v:pv[i]) if(vs.count(v)){ hit=true; break; } if(hit){ in[i]=1; use.push_back(PC[i]); for(auto v:pv[i]) if(vs.insert(v).second) ch=true; ch=true; } } } }
    else { bool ch=true; std::set<VarId> done; while(ch){ ch=false; for(auto v:std::set<VarId>(vs)) if(!done.count(v)){ done.insert(v); size_t n=vs.size(); atomDeps(v,vs); if(vs.size()!=n) ch=true; } } }
    std::ostringstream o; o<<"(set-option :timeout "<<tmo<<")\n"; bool anyInt=false; for(auto v:vs) if(VARS[v].isInt) anyInt=true; if(!anyInt) o<<"(set-logic QF_NRA)\n";
    std::vector<VarId> mv;
    for(auto v:vs){ auto&x=VARS[v]; o<<"(declare-const v"<<v<<(x.isInt?" Int":" Real")<<")\n"; mv.push_back(v); }
    for(auto v:vs){ auto&x=VARS[v]; 
        if(std::isfinite(x.lo)) o<<"(assert (<= "<<num(dyad(x.lo))<<" "<<vname(v)<<"))\n"; if(std::isfinite(x.hi)) o<<"(assert (<= "<<vname(v)<<" "<<num(dyad(x.hi))<<"))\n";
        if(x.order){ o<<"(assert (= (*"; for(uint32_t i=0;i<x.order;i++) o<<" "<<vname(v); o<<") "; pp(o,x.red); o<<"))\n"; }
        if(x.kind==A_IDIV){ o<<"(assert (<= (* "<<num(x.den)<<" "<<vname(v)<<") "; pp(o,x.num); o<<"))\n(assert (< "; pp(o,x.num); o<<" (+ "<<num(x.den)<<" (* "<<num(x.den)<<" "<<vname(v)<<"))))\n"; }
        if(x.kind==A_BOOL){ o<<"(assert (= (= "<<vname(v)<<" 1.0) "; pb(o,x.b); o<<"))\n"; }
        if(x.fn=="trig"){ } }
    for(auto&c:use){ o<<"(assert "; pb(o,c); o<<")\n"; }
    for(auto&c:cs){ o<<"(assert "; pb(o,c); o<<")\n"; }
    bool nonlin=false; auto nl=[&](const BP&b){ std::function<void(const BP&)> g=[&](const BP&x){ if(!x) return; for(auto&t:x->p.t) if(MT.m[t.first].deg>1) nonlin=true; g(x->a); g(x->b); }; g(b); }; for(auto&c:use) nl(c); for(auto&c:cs) nl(c);
    if(nonlin){ // linear abstraction first: monomials become independent reals within their boxes
        LINABS=true; LMON.clear(); std::ostringstream body; for(auto&c:use){ body<<"(assert "; pb(body,c); body<<")\n"; } for(auto&c:cs){ body<<"(assert "; pb(body,c); body<<")\n"; } LINABS=false;
        std::ostringstream h; h<<"(set-option :timeout "<<std::min(tmo,3000)<<")\n"; if(!anyInt) h<<"(set-logic QF_LRA)\n";
        for(auto v:vs){ auto&x=VARS[v]; h<<"(declare-const v"<<v<<(x.isInt?" Int":" Real")<<")\n"; if(std::isfinite(x.lo)) h<<"(assert (<= "<<num(dyad(x.lo))<<" "<<vname(v)<<"))\n"; if(std::isfinite(x.hi)) h<<"(assert (<= "<<vname(v)<<" "<<num(dyad(x.hi))<<"))\n"; }
        for(auto m:LMON){ double lo,hi; mbound(m,lo,hi); h<<"(declare-const m"<<m<<" Real)\n"; if(std::isfinite(lo)) h<<"(assert (<= "<<num(dyad(lo))<<" m"<<m<<"))\n"; if(std::isfinite(hi)) h<<"(assert (<= m"<<m<<" "<<num(dyad(hi))<<"))\n"; }
        __sync_fetch_and_add(&ST->lra,1); if(run(h.str()+body.str(),{},nullptr,std::min(tmo,3000))==UNSAT) return UNSAT; }
    if(model&&!SAMPLES.empty()&&model->size()<VARS.size()) *model=SAMPLES[0];
    if(model) model->resize(VARS.size(),0);
    return run(o.str(),mv,model,tmo);
}
SmtRes smt_lra_abs(const Poly&p,const mpq_class&bound){
    std::ostringstream o; o<<"(set-option :timeout 20000)\n(set-logic QF_LRA)\n"; __sync_fetch_and_add(&ST->lra,1);
    std::ostringstream s; s<<"(+ 0.0"; size_t i=0;
    for(auto&t:p.t){ if(t.first==0){ s<<" "<<num(t.second); continue; } double lo,hi; mbound(t.first,lo,hi); o<<"(declare-const m"<<i<<" Real)\n"; if(!std::isfinite(lo)||!std::isfinite(hi)) return UNKNOWN; o<<"(assert (<= "<<num(dyad(lo))<<" m"<<i<<" "<<num(dyad(hi))<<"))\n"; s<<" (* "<<num(t.second)<<" m"<<i<<")"; i++; }
    s<<")"; o<<"(assert (let ((d "<<s.str()<<")) (or (> d "<<num(bound)<<") (< d "<<num(-bound)<<"))))\n";
    return run(o.str(),{},nullptr,20000);
}

bool smt_const_batch(const std::vector<std::array<double,3>>&v){
    std::ostringstream o; o<<"(set-option :timeout 20000)\n(set-logic QF_LRA)\n(assert (or false"; for(auto&x:v){ mpq_class d=dyad(x[0])-dyad(x[1]); o<<" (> "<<num(d)<<" "<<num(dyad(x[2]))<<") (< "<<num(d)<<" "<<num(-dyad(x[2]))<<")"; } o<<"))\n";
    return run(o.str(),{},nullptr,20000)!=SAT;
}
