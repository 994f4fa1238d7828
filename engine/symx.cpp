// symx: symbolic executor for LLVM IR. Memory is host memory; a byte-granular shadow carries symbolic
// values. Doubles are exact rational functions of the inputs (concrete doubles stay IEEE), ints are
// integer polynomials. Branches on symbolic conditions are decided by z3 and forked (one process per path).
#include "smt.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/InlineAsm.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <random>
#include <unordered_set>
using namespace llvm;

// ================================================================ values
enum SK { S_NUM, S_BOOL, S_UNDEF, S_PIECES, S_AGG };
struct Val;
struct Sym { SK k; RP r; BP b; std::vector<std::pair<unsigned,Val>> pieces; std::vector<Val> agg; std::string why; unsigned bytes=0; };
typedef std::shared_ptr<Sym> SP;
struct Val { uint64_t u=0; SP s; Val(){} Val(uint64_t x):u(x){} bool sym() const { return (bool)s; } };
static Val VD(double d){ Val v; memcpy(&v.u,&d,8); return v; }
static double AD(const Val&v){ double d; memcpy(&d,&v.u,8); return d; }
static const uint64_t POISON=0x7ff4dead00000000ull;
static Val mkNum(const RP&r,bool fp){
    if(r->isConst()){ mpq_class c=r->n.constant(); if(fp){ double d=c.get_d(); if(dyad(d)==c) return VD(d); } else { if(c.get_den()==1&&c.get_num().fits_slong_p()) return Val((uint64_t)c.get_num().get_si()); } }
    Val v; v.s=std::make_shared<Sym>(); v.s->k=S_NUM; v.s->r=r; v.u=POISON; return v;
}
static Val mkBool(const BP&b){ if(b->k==BExpr::T) return Val(1); if(b->k==BExpr::F) return Val(0); Val v; v.s=std::make_shared<Sym>(); v.s->k=S_BOOL; v.s->b=b; return v; }
static Val mkUndef(const std::string&w){ Val v; v.s=std::make_shared<Sym>(); v.s->k=S_UNDEF; v.s->why=w; v.u=POISON; return v; }

// ================================================================ process-wide state
struct Shared { Stats st; sem_t tok; volatile int stop; long maxpaths; unsigned char fn[1]; };
static Shared*SH; static int REP=-1; static std::string ENTRY; static std::mt19937_64 RNG(1);
static std::vector<pid_t> KIDS; static bool HASTOK=true;
static long g_steplimit=400000000; static long STEPS=0; static int STRICT_DOM=0; static int OMP_T=64; static bool CHECK_UNINIT=true;
static double TOL_SCALE=1;
struct PathEnd { std::string why; };
static std::string esc(const std::string&s){ std::string o; for(char c:s){ if(c=='"'||c=='\\') { o+='\\'; o+=c; } else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }
static void report(const std::string&s){ std::string l=s+"\n"; if(write(REP,l.data(),l.size())<0){} }
static std::string modelJson(const std::vector<double>&m){ std::string o="{"; bool f=true; char b[64]; for(size_t i=0;i<VARS.size();i++) if(VARS[i].kind==V_REAL||VARS[i].kind==V_INT){ double x=i<m.size()?m[i]:0; x=std::min(std::max(x,VARS[i].lo),VARS[i].hi); snprintf(b,64,"%.17g",x); o+=std::string(f?"":",")+"\""+esc(VARS[i].name)+"\":"+b; f=false; } return o+"}"; }
static std::vector<std::string> CALLSTACK;
static std::string stackStr(){ std::string s; size_t n=CALLSTACK.size(); for(size_t i=0;i<n&&i<14;i++) { s+=(i?" <- ":"")+CALLSTACK[n-1-i].substr(0,120); } return s; }
static std::vector<double> bestModel(){ if(!SAMPLES.empty()) return SAMPLES[0]; std::vector<double> m; smt_query({},false,nullptr,1); m.resize(VARS.size(),0); std::vector<double> mm; if(smt_query(PC,false,&mm,g_timeout_ms)==SAT) return mm; return m; }
static void finish(const std::string&kind,const std::string&detail);
static void violation(const std::string&kind,const std::string&label,const std::vector<double>&m,const std::string&detail){
    __sync_fetch_and_add(&ST->violations,1);
    report("{\"ev\":\"violation\",\"entry\":\""+esc(ENTRY)+"\",\"kind\":\""+kind+"\",\"label\":\""+esc(label)+"\",\"model\":"+modelJson(m)+",\"detail\":\""+esc(detail)+"\",\"stack\":\""+esc(stackStr())+"\"}");
    if(ST->violations>=12) SH->stop=1;
}
static void inconclusive(const std::string&what){ __sync_fetch_and_add(&ST->incomplete,1); report("{\"ev\":\"inconclusive\",\"entry\":\""+esc(ENTRY)+"\",\"what\":\""+esc(what)+"\",\"stack\":\""+esc(stackStr())+"\"}"); }
static void path_error(const std::string&kind,const std::string&detail){ violation(kind,kind,bestModel(),detail); throw PathEnd{kind}; }
static void unsupported(const std::string&w){ inconclusive("unsupported: "+w); throw PathEnd{"unsupported"}; }

// ================================================================ variables
static VarId newVar(const Var&v){
    VARS.push_back(v); VarId id=VARS.size()-1; if(MT.order.size()<=id) MT.order.resize(id+1,0); MT.order[id]=v.order;
    for(auto&s:SAMPLES){ double x; 
        if(v.kind==V_REAL){ double u=(RNG()>>11)*0x1p-53; double lo=std::isfinite(v.lo)?v.lo:-3,hi=std::isfinite(v.hi)?v.hi:3; x=lo+(hi-lo)*u; }
        else if(v.kind==V_INT){ double lo=std::isfinite(v.lo)?v.lo:-3,hi=std::isfinite(v.hi)?v.hi:3; x=lo+(double)(RNG()%(uint64_t)(hi-lo+1)); }
        else { s.resize(id,0); x=atom_eval(v,s); }
        s.resize(id+1,0); s[id]=x; }
    std::vector<std::vector<double>> keep; for(auto&s:SAMPLES) if(std::isfinite(s[id])) keep.push_back(s); SAMPLES.swap(keep);
    return id;
}
static double reval(const RP&r,const std::vector<double>&x){ double v=peval(r->n,x,nullptr); for(auto&d:r->d){ double q=peval(DT.p[d.first],x,nullptr); for(uint32_t i=0;i<d.second;i++) v/=q; } return v; }
double atom_eval(const Var&v,const std::vector<double>&x){
    if(v.kind==A_SQRT){ double a=peval(v.red,x,nullptr); return v.order==2?std::sqrt(a):std::cbrt(a); }
    if(v.kind==A_IDIV) return std::floor(peval(v.num,x,nullptr)/v.den.get_d());
    if(v.kind==A_BOOL) return beval(v.b,x)==1?1:0;
    if(v.kind==A_FUN){ std::vector<double> a; for(auto&r:v.args) a.push_back(reval(r,x)); auto&f=v.fn;
        if(f=="exp") return std::exp(a[0]); if(f=="log") return std::log(a[0]); if(f=="tanh") return std::tanh(a[0]); if(f=="sin") return std::sin(a[0]); if(f=="cos") return std::cos(a[0]); if(f=="tan") return std::tan(a[0]); if(f=="pow") return std::pow(a[0],a[1]); if(f=="atan2") return std::atan2(a[0],a[1]); if(f=="atan") return std::atan(a[0]); if(f=="acos") return std::acos(a[0]); if(f=="asin") return std::asin(a[0]); if(f=="sinh") return std::sinh(a[0]); if(f=="cosh") return std::cosh(a[0]); if(f=="log10") return std::log10(a[0]); }
    return 0;
}
static RP num(const Val&v,bool fp){
    if(v.sym()){ if(v.s->k==S_NUM) return v.s->r; if(v.s->k==S_BOOL){ // ite
            for(size_t i=0;i<VARS.size();i++) if(VARS[i].kind==A_BOOL&&VARS[i].b==v.s->b){ return rvar(i); }
            Var x; x.name="b"+std::to_string(VARS.size()); x.kind=A_BOOL; x.lo=0; x.hi=1; x.isInt=true; x.b=v.s->b; return rvar(newVar(x)); }
        if(v.s->k==S_UNDEF) path_error("uninitialised","arithmetic on an uninitialised value ("+v.s->why+")"); unsupported("pieces in arithmetic"); }
    auto r=std::make_shared<RF>(); if(fp){ double d=AD(v); if(!std::isfinite(d)) unsupported("non-finite constant in symbolic arithmetic"); r->n=Poly::c(dyad(d)); } else { r->n=Poly::c(mpq_class((long)(int64_t)v.u)); r->isInt=true; } return r;
}
static bool ANY_UNKNOWN_BRANCH=false;
// ================================================================ deciding
static int quick(const BP&c){ // 1/0/-1 by interval
    if(c->k==BExpr::T) return 1; if(c->k==BExpr::F) return 0; double lo,hi;
    if(c->k==BExpr::LT||c->k==BExpr::LE||c->k==BExpr::EQ){ pbounds(c->p,lo,hi); if(c->k==BExpr::LT){ if(hi<0) return 1; if(lo>=0) return 0; } else if(c->k==BExpr::LE){ if(hi<=0) return 1; if(lo>0) return 0; } else { if(lo>0||hi<0) return 0; } return -1; }
    if(c->k==BExpr::NOT){ int r=quick(c->a); return r<0?-1:!r; }
    if(c->k==BExpr::AND){ int a=quick(c->a),b=quick(c->b); if(a==0||b==0) return 0; if(a==1&&b==1) return 1; return -1; }
    if(c->k==BExpr::OR){ int a=quick(c->a),b=quick(c->b); if(a==1||b==1) return 1; if(a==0&&b==0) return 0; return -1; }
    return -1;
}
static bool pcHas(const BP&c){ for(auto&p:PC) if(p->k==c->k&&(c->k==BExpr::LT||c->k==BExpr::LE||c->k==BExpr::EQ)&&p->p==c->p) return true; return false; }
static void addPC(const BP&c){
    if(c->k==BExpr::T) return; PC.push_back(c);
    std::vector<std::vector<double>> k; for(auto&s:SAMPLES) if(beval(c,s)==1) k.push_back(s);
    if(k.empty()) for(auto&s:SAMPLES) if(beval(c,s)==-1){ k.push_back(s); break; }
    SAMPLES.swap(k);
}
static void addModel(std::vector<double> m){ // recompute atoms
    m.resize(VARS.size(),0); for(size_t i=0;i<VARS.size();i++) if(VARS[i].kind!=V_REAL&&VARS[i].kind!=V_INT) m[i]=atom_eval(VARS[i],m); SAMPLES.push_back(m); }
static void endProcess(){
    // release token then wait for children
    if(HASTOK){ sem_post(&SH->tok); HASTOK=false; }
    int st; for(auto k:KIDS) while(waitpid(k,&st,0)<0&&errno==EINTR);
}
static bool doFork(){ // returns true in the child
    __sync_fetch_and_add(&ST->forks,1);
    bool par=sem_trywait(&SH->tok)==0; fflush(0);
    pid_t p=fork();
    if(p==0){ KIDS.clear(); smt_close(); HASTOK=true; return true; }
    if(p<0){ if(par) sem_post(&SH->tok); inconclusive("fork failed"); return false; }
    if(par) KIDS.push_back(p); else { int st; while(waitpid(p,&st,0)<0&&errno==EINTR); sem_wait(&SH->tok); }
    return false;
}
static bool decide(const BP&c){
    int q=quick(c); if(q>=0) return q;
    BP n=bnot(c); if(pcHas(c)) return true; if(pcHas(n)) return false;
    bool t=false,f=false; for(auto&s:SAMPLES){ int e=beval(c,s); if(e==1) t=true; if(e==0) f=true; }
    std::vector<double> mt,mf; bool kt=false,kf=false;
    if(!t){ SmtRes r=smt_query({c},true,&mt,g_timeout_ms); if(r==UNSAT){ addPC(n); return false; } if(r==SAT){ kt=true; } else ANY_UNKNOWN_BRANCH=true; t=true; }
    if(!f){ SmtRes r=smt_query({n},true,&mf,g_timeout_ms); if(r==UNSAT){ addPC(c); return true; } if(r==SAT){ kf=true; } else ANY_UNKNOWN_BRANCH=true; f=true; }
    if(SH->stop) throw PathEnd{"stopped"};
    if(__sync_fetch_and_add(&ST->pathlimit,1)>SH->maxpaths){ inconclusive("path budget exhausted"); SH->stop=1; throw PathEnd{"budget"}; }
    if(doFork()){ addPC(n); if(kf&&SAMPLES.empty()) addModel(mf); return false; }
    addPC(c); if(kt&&SAMPLES.empty()) addModel(mt); return true;
}
static bool assumeB(const BP&c){ // false if infeasible
    int q=quick(c); if(q==1) return true; if(q==0) return false; 
    bool t=false; for(auto&s:SAMPLES) if(beval(c,s)==1){ t=true; break; }
    std::vector<double> m; bool k=false; if(!t){ SmtRes r=smt_query({c},true,&m,g_timeout_ms); if(r==UNSAT) return false; if(r==SAT) k=true; }
    addPC(c); if(k) addModel(m); return true;
}
static void learnDenSigns(const RP&a){ for(auto&d:a->d) if(DT.sign[d.first]==2){ double lo,hi; pbounds(DT.p[d.first],lo,hi); if(lo>0){ DT.sign[d.first]=1; continue; } if(hi<0){ DT.sign[d.first]=-1; continue; }
        BP neg=bcmp(BExpr::LE,DT.p[d.first]),pos=bcmp(BExpr::LE,pscale(DT.p[d.first],-1)); bool sn=false,sp=false; for(auto&s:SAMPLES){ if(beval(neg,s)==1) sn=true; if(beval(pos,s)==1) sp=true; }
        DT.sign[d.first]=0; if(!sn&&smt_query({neg},true,nullptr,2000)==UNSAT) DT.sign[d.first]=1; else if(!sp&&smt_query({pos},true,nullptr,2000)==UNSAT) DT.sign[d.first]=-1; } }
static BP cmpR(BExpr::K k,const RP&a,const RP&b){ RP d=radd(a,b,-1); learnDenSigns(d); if(k==BExpr::EQ) return bcmp(k,d->n); return bcmp(k,rcross(d)); }
static int64_t concretize(const Val&v){
    if(!v.sym()) return (int64_t)v.u;
    if(v.s->k==S_BOOL) return decide(v.s->b)?1:0;
    if(v.s->k==S_UNDEF) path_error("uninitialised","uninitialised value used as address, size or condition ("+v.s->why+")");
    RP r=num(v,false);
    for(int guard=0;guard<100000;guard++){
        if(r->isConst()) return r->n.constant().get_num().get_si();
        double x; if(!SAMPLES.empty()) x=std::round(reval(r,SAMPLES[0])); else { std::vector<double> m; SmtRes q=smt_query({bcmp(BExpr::LE,padd(r->n,r->n,-1))},true,&m,g_timeout_ms); std::vector<BP> dummy{bcmp(BExpr::LE,padd(r->n,Poly::c(mpq_class(1L<<40)),-1))}; q=smt_query(dummy,true,&m,g_timeout_ms); if(q!=SAT) { inconclusive("cannot concretise"); throw PathEnd{"concretise"}; } x=std::round(reval(r,m)); }
        BP e=bcmp(BExpr::EQ,padd(r->n,Poly::c(mpq_class((long)x)),-1));
        if(decide(e)) return (int64_t)x;
    }
    throw PathEnd{"concretise"};
}
// ================================================================ memory
static char*ARENA; static size_t ARENA_SZ=(size_t)6<<30; static size_t ATOP=0; static char*STK; static size_t STK_SZ=(size_t)256<<20; static size_t STOP_=0;
struct Obj { uint64_t a; size_t n; bool live; char kind; std::string who; std::vector<bool>*init; };
static std::map<uint64_t,Obj> OBJ;           // arena + stack objects
static std::unordered_map<uint64_t,std::array<SP,256>*> PAGES; // 256-byte shadow pages
static bool inArena(uint64_t a){ return a>=(uint64_t)ARENA&&a<(uint64_t)ARENA+ARENA_SZ; }
static bool inStk(uint64_t a){ return a>=(uint64_t)STK&&a<(uint64_t)STK+STK_SZ; }
static SP*shSlot(uint64_t a,bool mk){ auto it=PAGES.find(a>>8); if(it==PAGES.end()){ if(!mk) return nullptr; it=PAGES.emplace(a>>8,new std::array<SP,256>()).first; } return &(*it->second)[a&255]; }
static Obj*findObj(uint64_t a){ auto it=OBJ.upper_bound(a); if(it==OBJ.begin()) return nullptr; --it; if(a<it->second.a+std::max<size_t>(it->second.n,1)) return &it->second; return nullptr; }
static Obj*LASTOBJ=nullptr;
static uint64_t heapAlloc(size_t n,const char*who,char kind='h'){ ATOP=(ATOP+15)&~(size_t)15; uint64_t a=(uint64_t)ARENA+ATOP+32; ATOP+=n+64; if(ATOP>=ARENA_SZ){ inconclusive("arena exhausted"); throw PathEnd{"oom"}; } Obj o{a,n,true,kind,who,new std::vector<bool>(kind=='g'?0:n,false)}; if(kind=='g'){ delete o.init; o.init=nullptr; } OBJ[a]=o; LASTOBJ=nullptr; memset((void*)a,0xAA,n); return a; }
static void check(uint64_t a,size_t n,bool wr){
    if(LASTOBJ&&LASTOBJ->live&&a>=LASTOBJ->a&&a+n<=LASTOBJ->a+LASTOBJ->n) return;
    if(!inArena(a)&&!inStk(a)){ if(a<65536) path_error("memory",std::string(wr?"write":"read")+" through a null pointer"); return; }
    Obj*o=findObj(a);
    if(!o||a+n>o->a+o->n){ Obj*p=o?o:nullptr; if(!p){ auto it=OBJ.upper_bound(a); if(it!=OBJ.begin()){ --it; p=&it->second; } } path_error("memory",std::string(wr?"out-of-bounds write":"out-of-bounds read")+" of "+std::to_string(n)+" bytes"+(p?", "+std::to_string((long)(a-p->a))+" bytes into a "+std::to_string(p->n)+"-byte block from "+p->who:"")); }
    if(!o->live) path_error("memory",std::string(wr?"write to":"read from")+" freed memory ("+o->who+")");
    LASTOBJ=o;
}
// race recording
struct Acc { uint64_t a; unsigned n; int tid; bool w; }; static bool RACE_ON=false; static int TID=0; static std::vector<Acc> ACCS; static uint64_t RACE_STK=0;
static void rec(uint64_t a,unsigned n,bool w){ if(inStk(a)&&a>=RACE_STK) return; ACCS.push_back({a,n,TID,w}); }
static void clearShadow(uint64_t a,size_t n){ for(size_t i=0;i<n;){ auto it=PAGES.find((a+i)>>8); size_t left=256-((a+i)&255); if(left>n-i) left=n-i; if(it!=PAGES.end()) for(size_t j=0;j<left;j++) (*it->second)[(a+i+j)&255].reset(); i+=left; } }
static void splitBefore(uint64_t a){ // a store at a would cut a wider symbolic cell starting before a
    for(int k=1;k<8;k++){ SP*s=shSlot(a-k,false); if(s&&*s){ if((*s)->bytes>(unsigned)k){ if((*s)->k==S_UNDEF){ unsigned b=(*s)->bytes; auto lo=std::make_shared<Sym>(**s); lo->bytes=k; SP keep=lo; *s=keep; (void)b; } else unsupported("store cuts a symbolic cell"); } break; } } }
static void store(uint64_t a,const Val&v,unsigned n){
    check(a,n,true); if(RACE_ON) rec(a,n,true);
    if(!PAGES.empty()){ if(shSlot(a,false)||shSlot(a-7,false)) splitBefore(a); clearShadow(a,n); }
    if(LASTOBJ&&LASTOBJ->init&&a>=LASTOBJ->a&&a<LASTOBJ->a+LASTOBJ->n){ for(unsigned i=0;i<n;i++) (*LASTOBJ->init)[a-LASTOBJ->a+i]=true; }
    if(!v.sym()){ memcpy((void*)a,&v.u,n); return; }
    if(v.s->k==S_PIECES){ memcpy((void*)a,&v.u,n); for(auto&p:v.s->pieces){ if(p.second.sym()){ auto c=std::make_shared<Sym>(*p.second.s); *shSlot(a+p.first,true)=c; } } return; }
    memcpy((void*)a,&POISON,n); auto c=v.s; if(c->bytes!=n){ c=std::make_shared<Sym>(*v.s); c->bytes=n; } *shSlot(a,true)=c;
}
static Val load(uint64_t a,unsigned n){
    check(a,n,false); if(RACE_ON) rec(a,n,false);
    Val v; memcpy(&v.u,(void*)a,n); if(n<8) v.u&=(~0ull>>(64-8*n));
    if(!PAGES.empty()){
        SP*s=shSlot(a,false);
        if(s&&*s&&(*s)->bytes==n){ v.s=*s; return v; }
        bool any=false; for(unsigned i=0;i<n;i++){ SP*t=shSlot(a+i,false); if(t&&*t){ any=true; break; } }
        if(any){ SP c=std::make_shared<Sym>(); c->k=S_PIECES; c->bytes=n; for(unsigned i=0;i<n;i++){ SP*t=shSlot(a+i,false); if(t&&*t){ if(i+(*t)->bytes>n) unsupported("partial load of a symbolic cell"); Val p; p.s=*t; c->pieces.push_back({i,p}); } } v.s=c; return v; }
        for(int k=1;k<8;k++){ SP*t=shSlot(a-k,false); if(t&&*t){ if((*t)->bytes>(unsigned)k&&(*t)->k!=S_UNDEF) unsupported("load inside a symbolic cell"); break; } }
    }
    if(CHECK_UNINIT&&LASTOBJ&&LASTOBJ->init&&a>=LASTOBJ->a&&a<LASTOBJ->a+LASTOBJ->n){ unsigned c=0; for(unsigned i=0;i<n;i++) if(!(*LASTOBJ->init)[a-LASTOBJ->a+i]) c++; if(c==n) { Val x=mkUndef("from "+LASTOBJ->who); x.s->bytes=n; return x; } }
    return v;
}
static void copyMem(uint64_t d,uint64_t s,size_t n){
    if(!n) return; check(s,n,false); Obj*so=LASTOBJ; bool sin=inArena(s)||inStk(s); std::vector<bool> ib; if(sin&&so&&so->init){ ib.resize(n); for(size_t i=0;i<n;i++) ib[i]=(*so->init)[s-so->a+i]; }
    check(d,n,true); if(RACE_ON){ rec(s,n,false); rec(d,n,true); }
    std::vector<SP> sh; bool any=false; if(!PAGES.empty()){ sh.resize(n); for(size_t i=0;i<n;i++){ SP*t=shSlot(s+i,false); if(t&&*t){ sh[i]=*t; any=true; } } }
    memmove((void*)d,(void*)s,n); if(!PAGES.empty()) clearShadow(d,n);
    if(any) for(size_t i=0;i<n;i++) if(sh[i]) *shSlot(d+i,true)=sh[i];
    Obj*o=(inArena(d)||inStk(d))?findObj(d):nullptr; if(o&&o->init) for(size_t i=0;i<n;i++) (*o->init)[d-o->a+i]= ib.empty()?true:(bool)ib[i];
}
static void freeMem(uint64_t a){
    if(!a) return;
    if(inArena(a)){ auto it=OBJ.find(a); if(it==OBJ.end()) path_error("memory","free of a pointer that is not the start of a block"); if(it->second.kind!='h') path_error("memory","free of non-heap memory"); if(!it->second.live) path_error("memory","double free ("+it->second.who+")"); it->second.live=false; LASTOBJ=nullptr; if(!PAGES.empty()) clearShadow(a,it->second.n); return; }
    if(inStk(a)) path_error("memory","free of stack memory");
    free((void*)a);
}
static bool INTERP_ALLOC=false;
void* operator new(size_t n){ void*p=malloc(n?n:1); if(!p) abort(); return p; }
void* operator new[](size_t n){ void*p=malloc(n?n:1); if(!p) abort(); return p; }
void operator delete(void*p) noexcept { if(p&&inArena((uint64_t)p)){ auto it=OBJ.find((uint64_t)p); if(it!=OBJ.end()) { it->second.live=false; LASTOBJ=nullptr; } return; } free(p); }
void operator delete[](void*p) noexcept { operator delete(p); }
void operator delete(void*p,size_t) noexcept { operator delete(p); }
void operator delete[](void*p,size_t) noexcept { operator delete(p); }

// ================================================================ decoded code
struct DI { const Instruction*I; unsigned op; std::vector<int> ops; int dst=-1; unsigned bits=0; bool fp=false; unsigned size=0; int64_t off=0; std::vector<std::pair<int,int64_t>> sc; std::vector<int> succ; unsigned pred=0; Function*callee=nullptr; int intr=0; std::vector<std::pair<int,uint64_t>> cases; std::vector<std::pair<int,int>> phi; unsigned sbits=0; std::vector<unsigned> idx; };
struct DB { std::vector<DI> ins; size_t nphi=0; };
struct DF { Function*F; std::vector<DB> bb; std::vector<Val> consts; int nslots=0; int nargs=0; std::string name,dem; int id; bool varargs=false; };
static std::unique_ptr<Module> M; static const DataLayout*DL; static std::unordered_map<const Function*,DF*> DFS; static std::unordered_map<const GlobalValue*,uint64_t> GADDR; static std::unordered_map<uint64_t,Function*> FADDR; static int NFN=0; static std::vector<std::string> FNAMES;
static std::unordered_map<std::string,int> FNID;
static uint64_t gaddr(const GlobalValue*g);
static bool isNativeStd(const Function*F){ StringRef n=F->getName(); return F->isDeclaration()||F->hasAvailableExternallyLinkage(); (void)n; }
static Val constVal(const Constant*c){
    Type*t=c->getType();
    if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) { return Val(ci->getValue().getLoBits(64).getRawData()[0]); } return Val(ci->getZExtValue()); }
    if(auto*cf=dyn_cast<ConstantFP>(c)){ if(t->isFloatTy()) return VD((double)cf->getValueAPF().convertToFloat()); if(t->isDoubleTy()) return VD(cf->getValueAPF().convertToDouble()); APFloat f=cf->getValueAPF(); bool l; f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&l); return VD(f.convertToDouble()); }
    if(isa<ConstantPointerNull>(c)) return Val(0);
    if(isa<UndefValue>(c)){ if(t->isAggregateType()){ Val v; v.s=std::make_shared<Sym>(); v.s->k=S_AGG; unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements(); for(unsigned i=0;i<n;i++) v.s->agg.push_back(Val(0)); return v; } return mkUndef("undef constant"); }
    if(auto*g=dyn_cast<GlobalValue>(c)) return Val(gaddr(g));
    if(isa<ConstantAggregateZero>(c)||isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)){ Val v; v.s=std::make_shared<Sym>(); v.s->k=S_AGG; unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++) v.s->agg.push_back(constVal(c->getAggregateElement(i))); return v; }
    if(auto*ce=dyn_cast<ConstantExpr>(c)){
        if(ce->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); if(cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) return Val(constVal(ce->getOperand(0)).u+off.getSExtValue()); }
        if(ce->isCast()) return constVal(ce->getOperand(0));
        if(ce->getOpcode()==Instruction::Sub) return Val(constVal(ce->getOperand(0)).u-constVal(ce->getOperand(1)).u);
        if(ce->getOpcode()==Instruction::Add) return Val(constVal(ce->getOperand(0)).u+constVal(ce->getOperand(1)).u);
    }
    std::string s; raw_string_ostream o(s); c->print(o); report("{\"ev\":\"note\",\"what\":\"constant "+esc(o.str())+"\"}"); return mkUndef("unsupported constant");
}
static void initGlobal(uint64_t a,const Constant*c){
    Type*t=c->getType();
    if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)){ memset((void*)a,0,DL->getTypeAllocSize(t)); return; }
    if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); memcpy((void*)a,r.data(),r.size()); return; }
    if(auto*st=dyn_cast<StructType>(t)){ const StructLayout*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) initGlobal(a+sl->getElementOffset(i),c->getAggregateElement(i)); return; }
    if(auto*at=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) initGlobal(a+i*es,c->getAggregateElement(i)); return; }
    Val v=constVal(c); unsigned n=DL->getTypeStoreSize(t); if(t->isFloatTy()){ float f=AD(v); memcpy((void*)a,&f,4); return; } memcpy((void*)a,&v.u,std::min(n,8u));
}
static uint64_t gaddr(const GlobalValue*g){
    auto it=GADDR.find(g); if(it!=GADDR.end()) return it->second;
    if(auto*al=dyn_cast<GlobalAlias>(g)){ uint64_t a=constVal(al->getAliasee()).u; GADDR[g]=a; return a; }
    if(auto*f=dyn_cast<Function>(g)){
        Function*F=const_cast<Function*>(f);
        if(isNativeStd(F)){ void*p=dlsym(RTLD_DEFAULT,f->getName().str().c_str()); uint64_t a=p?(uint64_t)p:heapAlloc(16,"function",'f'); GADDR[g]=a; FADDR[a]=F; return a; }
        uint64_t a=heapAlloc(16,"function",'f'); GADDR[g]=a; FADDR[a]=F; return a;
    }
    auto*gv=cast<GlobalVariable>(g);
    if(gv->isDeclaration()||gv->hasAvailableExternallyLinkage()){ void*p=dlsym(RTLD_DEFAULT,gv->getName().str().c_str()); if(!p){ uint64_t a=heapAlloc(64,"extern",'g'); GADDR[g]=a; return a; } return GADDR[g]=(uint64_t)p; }
    size_t n=DL->getTypeAllocSize(gv->getValueType()); uint64_t a=heapAlloc(std::max<size_t>(n,1),("global "+gv->getName()).str().c_str(),'g'); GADDR[g]=a; memset((void*)a,0,n); if(gv->hasInitializer()) initGlobal(a,gv->getInitializer()); return a;
}
static DF*decode(Function*F){
    auto it=DFS.find(F); if(it!=DFS.end()) return it->second;
    DF*d=new DF; DFS[F]=d; d->F=F; d->name=F->getName().str(); d->dem=demangle(d->name); d->id=FNID[d->name]; d->nargs=F->arg_size();
    std::unordered_map<const Value*,int> slot; std::unordered_map<const BasicBlock*,int> bi; int n=0; for(auto&a:F->args()) slot[&a]=n++;
    int b=0; for(auto&B:*F){ bi[&B]=b++; for(auto&I:B) if(!I.getType()->isVoidTy()) slot[&I]=n++; }
    d->nslots=n;
    std::unordered_map<const Value*,int> cs;
    auto opi=[&](const Value*v)->int{ auto s=slot.find(v); if(s!=slot.end()) return s->second; auto c=cs.find(v); if(c!=cs.end()) return c->second; if(auto*k=dyn_cast<Constant>(v)){ d->consts.push_back(constVal(k)); int id=-(int)d->consts.size(); cs[v]=id; return id; } d->consts.push_back(Val(0)); int id=-(int)d->consts.size(); cs[v]=id; return id; };
    d->bb.resize(b);
    for(auto&B:*F){ DB&db=d->bb[bi[&B]]; for(auto&I:B){
        if(isa<DbgInfoIntrinsic>(I)) continue;
        DI x; x.I=&I; x.op=I.getOpcode(); if(!I.getType()->isVoidTy()) x.dst=slot[&I];
        Type*t=I.getType(); if(t->isIntegerTy()) x.bits=t->getIntegerBitWidth(); else if(t->isPointerTy()) x.bits=64; x.fp=t->isFloatingPointTy();
        if(auto*p=dyn_cast<PHINode>(&I)){ for(unsigned i=0;i<p->getNumIncomingValues();i++) x.phi.push_back({bi[p->getIncomingBlock(i)],opi(p->getIncomingValue(i))}); db.ins.push_back(x); db.nphi++; continue; }
        if(auto*c=dyn_cast<CallBase>(&I)){ x.callee=dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); if(x.callee&&x.callee->isIntrinsic()){ x.intr=x.callee->getIntrinsicID(); switch(x.intr){ case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: continue; } }
            for(auto&u:c->args()) { if(u->getType()->isMetadataTy()) { x.ops.push_back(opi(ConstantInt::get(Type::getInt32Ty(F->getContext()),0))); continue; } x.ops.push_back(opi(u)); } x.off=x.callee?0:opi(c->getCalledOperand());
            if(auto*iv=dyn_cast<InvokeInst>(&I)) x.succ={bi[iv->getNormalDest()],bi[iv->getUnwindDest()]};
            db.ins.push_back(x); continue; }
        switch(x.op){
        case Instruction::GetElementPtr:{ auto*g=cast<GetElementPtrInst>(&I); x.ops.push_back(opi(g->getPointerOperand())); for(auto gi=gep_type_begin(g),e=gep_type_end(g);gi!=e;++gi){ const Value*ix=gi.getOperand(); if(StructType*st=gi.getStructTypeOrNull()){ x.off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) x.off+=ci->getSExtValue()*sz; else { int s=opi(ix); x.sc.push_back({s,sz}); x.idx.push_back(ix->getType()->getIntegerBitWidth()); } } } break; }
        case Instruction::Br:{ auto*br=cast<BranchInst>(&I); if(br->isConditional()){ x.ops.push_back(opi(br->getCondition())); x.succ={bi[br->getSuccessor(0)],bi[br->getSuccessor(1)]}; } else x.succ={bi[br->getSuccessor(0)]}; break; }
        case Instruction::Switch:{ auto*sw=cast<SwitchInst>(&I); x.ops.push_back(opi(sw->getCondition())); x.sbits=sw->getCondition()->getType()->getIntegerBitWidth(); for(auto&cse:sw->cases()) x.cases.push_back({bi[cse.getCaseSuccessor()],cse.getCaseValue()->getZExtValue()}); x.succ={bi[sw->getDefaultDest()]}; break; }
        case Instruction::ExtractValue: { auto*e=cast<ExtractValueInst>(&I); x.ops.push_back(opi(e->getAggregateOperand())); for(auto k:e->indices()) x.idx.push_back(k); break; }
        case Instruction::InsertValue: { auto*e=cast<InsertValueInst>(&I); x.ops.push_back(opi(e->getAggregateOperand())); x.ops.push_back(opi(e->getInsertedValueOperand())); for(auto k:e->indices()) x.idx.push_back(k); break; }
        default: for(auto&u:I.operands()) if(!isa<BasicBlock>(u)) x.ops.push_back(opi(u)); }
        if(auto*ic=dyn_cast<CmpInst>(&I)){ x.pred=ic->getPredicate(); Type*ot=ic->getOperand(0)->getType(); x.sbits=ot->isIntegerTy()?ot->getIntegerBitWidth():64; }
        if(auto*ca=dyn_cast<CastInst>(&I)){ Type*st=ca->getSrcTy(); x.sbits=st->isIntegerTy()?st->getIntegerBitWidth():st->isFloatTy()?32:64; }
        if(auto*ld=dyn_cast<LoadInst>(&I)) x.size=DL->getTypeStoreSize(ld->getType());
        if(auto*st=dyn_cast<StoreInst>(&I)){ x.size=DL->getTypeStoreSize(st->getValueOperand()->getType()); x.fp=st->getValueOperand()->getType()->isFloatingPointTy(); x.sbits=st->getValueOperand()->getType()->isFloatTy()?32:64; }
        if(auto*al=dyn_cast<AllocaInst>(&I)){ x.size=DL->getTypeAllocSize(al->getAllocatedType()); }
        db.ins.push_back(x);
    } }
    return d;
}
// ================================================================ helpers
static uint64_t mask(unsigned b){ return b>=64?~0ull:((1ull<<b)-1); }
static int64_t sx(uint64_t u,unsigned b){ if(b>=64) return (int64_t)u; uint64_t m=1ull<<(b-1); u&=mask(b); return (int64_t)((u^m)-m); }
static RP inum(const Val&v,unsigned bits){ if(v.sym()) return num(v,false); auto r=std::make_shared<RF>(); r->isInt=true; r->n=Poly::c(mpq_class((long)sx(v.u,bits))); return r; }
static Val mkInt(const RP&r){ Val v=mkNum(r,false); return v; }
static BP asBool(const Val&v){ if(!v.sym()) return (v.u&1)?btrue():bfalse(); if(v.s->k==S_BOOL) return v.s->b; if(v.s->k==S_UNDEF) path_error("uninitialised","branch on an uninitialised value ("+v.s->why+")"); return bnot(bcmp(BExpr::EQ,num(v,false)->n)); }
static void chkUndef(const Val&v,const char*w){ if(v.sym()&&v.s->k==S_UNDEF) path_error("uninitialised",std::string(w)+" uses an uninitialised value ("+v.s->why+")"); }
static Val piecesFix(const Val&v){ if(v.sym()&&v.s->k==S_PIECES){ if(v.s->pieces.size()==1&&v.s->pieces[0].first==0&&v.s->pieces[0].second.s->k!=S_UNDEF&&v.s->bytes==v.s->pieces[0].second.s->bytes) return v.s->pieces[0].second; } return v; }
static RP sqrtR(const RP&a);
static Val fdom(const char*what,const BP&bad){ // bad is the domain error condition
    int q=quick(bad); if(q==0) return Val(0);
    bool feas=false; std::vector<double> m; for(auto&s:SAMPLES) if(beval(bad,s)==1){ feas=true; m=s; break; }
    if(!feas){ SmtRes r=smt_query({bad},true,&m,g_timeout_ms); if(r==UNSAT) return Val(0); feas= r==SAT; }
    if(STRICT_DOM==1&&feas){ smt_query({bad},true,&m,g_timeout_ms); violation("domain",what,m,what); }
    __sync_fetch_and_add(&ST->assumed_dom,1);
    if(!assumeB(bnot(bad))) throw PathEnd{"domain"};
    return Val(0);
}
static bool rapprox(const RP&a,const RP&b){ if(a->d==b->d) return a->n==b->n||papprox(a->n,b->n); if(a->n.t.size()>200||b->n.t.size()>200) return false; RP d=radd(a,b,-1); if(d->n.zero()) return true; double m=0; for(auto&t:d->n.t) m=std::max(m,std::fabs(t.second.get_d())); double k=0; for(auto&t:a->n.t) k=std::max(k,std::fabs(t.second.get_d())); return m<=1e-13*k; }
static RP funAtom(const std::string&fn,const std::vector<RP>&args,double lo,double hi){
    for(size_t i=0;i<VARS.size();i++) if(VARS[i].kind==A_FUN&&VARS[i].fn==fn&&VARS[i].args.size()==args.size()){ bool eq=true; for(size_t j=0;j<args.size();j++) if(!rapprox(VARS[i].args[j],args[j])) eq=false; if(eq) return rvar(i); }
    Var v; v.name=fn+"#"+std::to_string(VARS.size()); v.kind=A_FUN; v.fn=fn; v.args=args; v.lo=lo; v.hi=hi; return rvar(newVar(v));
}
// bounds over the box, by subdivision when at most two input variables occur
static void pboundsSub(const Poly&p,double&lo,double&hi){
    pbounds(p,lo,hi); if(lo>0) return; std::set<VarId> vs; pvars(p,vs); if(vs.empty()||vs.size()>2||p.t.size()>200) return; std::vector<VarId> v(vs.begin(),vs.end());
    for(auto x:v) if(VARS[x].kind!=V_REAL||!std::isfinite(VARS[x].lo)||!std::isfinite(VARS[x].hi)) return;
    int N=v.size()==1?256:24; std::vector<std::pair<double,double>> sv; for(auto x:v) sv.push_back({VARS[x].lo,VARS[x].hi}); double L=INFINITY,H=-INFINITY; auto cut=[&](int k,int i){ double a=sv[k].first,b=sv[k].second; return i==0?a:i==N?b:a+(b-a)*i/N; };
    for(int i=0;i<N;i++){ VARS[v[0]].lo=cut(0,i); VARS[v[0]].hi=cut(0,i+1); for(int j=0;j<(v.size()>1?N:1);j++){ if(v.size()>1){ VARS[v[1]].lo=cut(1,j); VARS[v[1]].hi=cut(1,j+1); } double a,b; pbounds(p,a,b); L=std::min(L,a); H=std::max(H,b); } }
    for(size_t k=0;k<v.size();k++){ VARS[v[k]].lo=sv[k].first; VARS[v[k]].hi=sv[k].second; } lo=std::max(lo,L); hi=std::min(hi,H);
}
static RP rootAtom(const Poly&p,unsigned order){
    for(size_t i=0;i<VARS.size();i++) if(VARS[i].kind==A_SQRT&&VARS[i].order==order&&papprox(VARS[i].red,p)) return rvar(i);
    Var v; v.kind=A_SQRT; v.order=order; v.red=p; v.name=(order==2?"sqrt#":"cbrt#")+std::to_string(VARS.size()); double lo,hi; pboundsSub(p,lo,hi);
    if(order==2){ v.lo=lo>0?std::sqrt(lo)*(1-1e-15):0; v.hi=hi>0?std::sqrt(hi)*(1+1e-15):0; } else { v.lo=std::cbrt(lo)-1e-9; v.hi=std::cbrt(hi)+1e-9; }
    return rvar(newVar(v));
}
// polynomial square root of perfect squares (univariate style check through leading terms)
static bool psqrt(const Poly&p,Poly&q){ // try q with q*q==p
    if(p.zero()){ q=p; return true; }
    // build from leading monomial: standard long-hand square root
    auto lead=[&](const Poly&a){ size_t k=0; for(size_t i=1;i<a.t.size();i++) if(MT.greater(a.t[i].first,a.t[k].first)) k=i; return k; };
    size_t l=lead(p); if(sgn(p.t[l].second)<0) return false; auto f=MT.m[p.t[l].first].f; for(auto&x:f){ if(x.second%2) return false; x.second/=2; if(MT.ord(x.first)) return false; }
    mpz_class n=p.t[l].second.get_num(),d=p.t[l].second.get_den(); if(!mpz_perfect_square_p(n.get_mpz_t())||!mpz_perfect_square_p(d.get_mpz_t())) return false;
    mpq_class c(sqrt(n),sqrt(d)); Poly r; r.t.push_back({MT.get(f),c}); MonoId lm=r.t[0].first; Poly rem=padd(p,pmul(r,r),-1); size_t guard=0;
    while(!rem.zero()){ if(++guard>200) return false; size_t k=lead(rem); MonoId m; if(!MT.divides(lm,rem.t[k].first,m)) return false; if(!MT.greater(lm,m)&&m!=lm) return false; Poly t; t.t.push_back({m,rem.t[k].second/(2*c)}); if(m==lm) return false; rem=padd(rem,padd(pmul(pscale(t,2),r),pmul(t,t)),-1); r=padd(r,t); if(rem.t.size()>p.t.size()*4+64) return false; }
    q=r; return true;
}
static Val fabsV(const Val&v);
static Val sqrtV(const Val&v){
    if(!v.sym()) return VD(std::sqrt(AD(v))); RP a=num(v,true);
    learnDenSigns(a); BP neg=bcmp(BExpr::LT,rcross(a)); fdom("square root of a negative number",neg);
    if(a->n.zero()) return VD(0);
    // pull squares: n/d with even den exponents
    Poly N=a->n; std::vector<std::pair<uint32_t,uint32_t>> half; Poly extra=Poly::c(1);
    for(auto&d:a->d){ uint32_t e=d.second; if(e&1){ N=pmul(N,DT.p[d.first]); e++; } half.push_back({d.first,e/2}); }
    RP root; Poly q; 
    if(N.t.size()==1){ auto f=MT.m[N.t[0].first].f; bool ev=true; for(auto&x:f){ if(x.second%2||MT.ord(x.first)) ev=false; x.second/=2; } if(ev){ Poly m; m.t.push_back({MT.get(f),mpq_class(1)}); RP den=rconst(1); for(auto&h:half){ RP dp=rpoly(DT.p[h.first]); for(uint32_t i=0;i<h.second;i++) den=rmul(den,dp); } mpz_class cn=N.t[0].second.get_num(),cd=N.t[0].second.get_den(); bool ps=mpz_perfect_square_p(cn.get_mpz_t())&&mpz_perfect_square_p(cd.get_mpz_t()); RP c= ps? rconst(mpq_class(sqrt(cn),sqrt(cd))): rconst(dyad(std::sqrt(N.t[0].second.get_d()))); return fabsV(mkNum(rdiv(rmul(c,rpoly(m)),den),true)); } }
    if(psqrt(N,q)) { RP base=rpoly(q); RP den=rconst(1); for(auto&h:half){ RP dp=rpoly(DT.p[h.first]); for(uint32_t i=0;i<h.second;i++) den=rmul(den,dp); } return fabsV(mkNum(rdiv(base,den),true)); }
    // scale out constant squares is unnecessary; atom of N
    // normalise by leading rational so that sqrt(4x) and 2 sqrt(x) coincide
    mpq_class lc=N.t[0].second; if(sgn(lc)<0) lc=-lc; mpz_class n=lc.get_num(),d=lc.get_den(); mpq_class pull=1; if(mpz_perfect_square_p(n.get_mpz_t())&&mpz_perfect_square_p(d.get_mpz_t())){ pull=mpq_class(sqrt(n),sqrt(d)); N=pscale(N,1/lc); }
    root=rmul(rconst(pull),rootAtom(N,2)); RP den=rconst(1); for(auto&h:half){ RP dp=rpoly(DT.p[h.first]); if(h.second%2){ Val ad=fabsV(mkNum(dp,true)); den=rmul(den,num(ad,true)); for(uint32_t i=1;i<h.second;i++) den=rmul(den,dp); } else for(uint32_t i=0;i<h.second;i++) den=rmul(den,dp); }
    return mkNum(rdiv(root,den),true);
}
static Val fnegV(const Val&v){ if(!v.sym()) return VD(-AD(v)); if(v.s->k==S_UNDEF) return v; return mkNum(rneg(num(v,true)),true); }
static Val fabsV(const Val&v){ if(!v.sym()) return VD(std::fabs(AD(v))); if(v.s->k==S_UNDEF) return v; RP a=num(v,true); learnDenSigns(a); BP neg=bcmp(BExpr::LT,rcross(a)); if(decide(neg)) return mkNum(rneg(a),true); return v; }
static Val fbin(unsigned op,const Val&a,const Val&b){
    if(!a.sym()&&!b.sym()){ double x=AD(a),y=AD(b); switch(op){ case Instruction::FAdd: return VD(x+y); case Instruction::FSub: return VD(x-y); case Instruction::FMul: return VD(x*y); case Instruction::FDiv: return VD(x/y); case Instruction::FRem: return VD(std::fmod(x,y)); } }
    if(a.sym()&&a.s->k==S_UNDEF) return a; if(b.sym()&&b.s->k==S_UNDEF) return b;
    // IEEE semantics when one operand is a concrete infinity / NaN, or the divisor is an exact zero: the sign of the symbolic operand is case-split
    auto sgnV=[&](const Val&v)->int{ RP r=num(v,true); learnDenSigns(r); if(decide(bcmp(BExpr::LT,rcross(r)))) return -1; if(decide(bcmp(BExpr::EQ,rcross(r)))) return 0; return 1; };
    for(int side=0;side<2;side++){ const Val&c=side?b:a; const Val&o=side?a:b; if(!c.sym()&&!std::isfinite(AD(c))){ double s=AD(c); if(std::isnan(s)) return VD(s); switch(op){ case Instruction::FAdd: return VD(s); case Instruction::FSub: return VD(side?-s:s); case Instruction::FMul: { int g=sgnV(o); return VD(s*g); } case Instruction::FDiv: if(side) return VD(0.0); { int g=sgnV(o); return VD(g<0?-s:s); } } } }
    RP x=num(a,true),y=num(b,true);
    if(op==Instruction::FDiv&&y->n.zero()){ if(STRICT_DOM==1) fdom("division by zero",btrue()); double z=b.sym()?0.0:AD(b); int g=sgnV(a); return VD((double)g/z); }
    if(op==Instruction::FDiv&&STRICT_DOM==2&&!y->isConst()){ if(decide(bcmp(BExpr::EQ,y->n))){ int g=sgnV(a); return VD((double)g/0.0); } return mkNum(rdiv(x,y),true); }
    switch(op){ case Instruction::FAdd: return mkNum(radd(x,y),true); case Instruction::FSub: return mkNum(radd(x,y,-1),true); case Instruction::FMul: return mkNum(rmul(x,y),true);
    case Instruction::FDiv: if(y->n.zero()){ fdom("division by zero",btrue()); throw PathEnd{"domain"}; } if(!y->isConst()) fdom("division by zero",bcmp(BExpr::EQ,y->n)); return mkNum(rdiv(x,y),true); }
    unsupported("symbolic frem"); return Val(0);
}
static Val fcmpV(unsigned p,const Val&a,const Val&b){
    if(!a.sym()&&!b.sym()){ double x=AD(a),y=AD(b); bool u=std::isnan(x)||std::isnan(y); switch(p){ case CmpInst::FCMP_OEQ: return x==y; case CmpInst::FCMP_OGT: return x>y; case CmpInst::FCMP_OGE: return x>=y; case CmpInst::FCMP_OLT: return x<y; case CmpInst::FCMP_OLE: return x<=y; case CmpInst::FCMP_ONE: return !u&&x!=y; case CmpInst::FCMP_ORD: return !u; case CmpInst::FCMP_UNO: return u; case CmpInst::FCMP_UEQ: return u||x==y; case CmpInst::FCMP_UGT: return u||x>y; case CmpInst::FCMP_UGE: return u||x>=y; case CmpInst::FCMP_ULT: return u||x<y; case CmpInst::FCMP_ULE: return u||x<=y; case CmpInst::FCMP_UNE: return u||x!=y; case CmpInst::FCMP_TRUE: return 1; default: return 0; } }
    chkUndef(a,"comparison"); chkUndef(b,"comparison");
    if(p==CmpInst::FCMP_ORD) return 1; if(p==CmpInst::FCMP_UNO) return 0;
    // infinities against symbolic finite values
    for(int side=0;side<2;side++){ const Val&c=side?b:a; if(!c.sym()&&!std::isfinite(AD(c))){ double s=AD(c); if(std::isnan(s)) return p>=CmpInst::FCMP_UNO&&p!=CmpInst::FCMP_FALSE; double x=side?0:s,y=side?s:0; return fcmpV(p,VD(x),VD(y)); } }
    RP x=num(a,true),y=num(b,true);
    switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkBool(cmpR(BExpr::EQ,x,y)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkBool(bnot(cmpR(BExpr::EQ,x,y)));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkBool(cmpR(BExpr::LT,x,y)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkBool(cmpR(BExpr::LE,x,y));
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkBool(cmpR(BExpr::LT,y,x)); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkBool(cmpR(BExpr::LE,y,x)); }
    return 0;
}
static bool nonneg(const RP&r){ double lo,hi; pbounds(r->n,lo,hi); if(lo>=0) return true; return decide(bcmp(BExpr::LE,pscale(r->n,-1))); }
static Val icmpV(unsigned p,const Val&a0,const Val&b0,unsigned bits){
    Val a=piecesFix(a0),b=piecesFix(b0);
    if(!a.sym()&&!b.sym()){ uint64_t x=a.u&mask(bits),y=b.u&mask(bits); int64_t s=sx(x,bits),t=sx(y,bits); switch(p){ case CmpInst::ICMP_EQ: return x==y; case CmpInst::ICMP_NE: return x!=y; case CmpInst::ICMP_UGT: return x>y; case CmpInst::ICMP_UGE: return x>=y; case CmpInst::ICMP_ULT: return x<y; case CmpInst::ICMP_ULE: return x<=y; case CmpInst::ICMP_SGT: return s>t; case CmpInst::ICMP_SGE: return s>=t; case CmpInst::ICMP_SLT: return s<t; case CmpInst::ICMP_SLE: return s<=t; } }
    chkUndef(a,"comparison"); chkUndef(b,"comparison");
    if(bits==1||(a.sym()&&a.s->k==S_BOOL&&!b.sym()&&b.u<=1)||(b.sym()&&b.s->k==S_BOOL&&!a.sym()&&a.u<=1)){ if((p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)){ if(!b.sym()){ BP x=asBool(a); bool want=(b.u&1)^(p==CmpInst::ICMP_NE); return mkBool(want?x:bnot(x)); } if(!a.sym()){ BP x=asBool(b); bool want=(a.u&1)^(p==CmpInst::ICMP_NE); return mkBool(want?x:bnot(x)); } } if(bits==1){ a=Val(concretize(a)); b=Val(concretize(b)); return icmpV(p,a,b,bits); } }
    RP x=inum(a,bits),y=inum(b,bits);
    switch(p){ case CmpInst::ICMP_EQ: return mkBool(bcmp(BExpr::EQ,padd(x->n,y->n,-1))); case CmpInst::ICMP_NE: return mkBool(bnot(bcmp(BExpr::EQ,padd(x->n,y->n,-1)))); }
    bool uns= p==CmpInst::ICMP_UGT||p==CmpInst::ICMP_UGE||p==CmpInst::ICMP_ULT||p==CmpInst::ICMP_ULE;
    if(uns){ bool nx=nonneg(x),ny=nonneg(y); if(nx!=ny){ bool gt=!nx; return (p==CmpInst::ICMP_UGT||p==CmpInst::ICMP_UGE)?gt:!gt; } }
    switch(p){ case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return mkBool(bcmp(BExpr::LT,padd(y->n,x->n,-1))); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return mkBool(bcmp(BExpr::LE,padd(y->n,x->n,-1))); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return mkBool(bcmp(BExpr::LT,padd(x->n,y->n,-1))); default: return mkBool(bcmp(BExpr::LE,padd(x->n,y->n,-1))); }
}
static RP idivAtom(const Poly&n,const mpq_class&den){ for(size_t i=0;i<VARS.size();i++) if(VARS[i].kind==A_IDIV&&VARS[i].num==n&&VARS[i].den==den) return rvar(i);
    Var v; v.kind=A_IDIV; v.isInt=true; v.num=n; v.den=den; v.name="div#"+std::to_string(VARS.size()); double lo,hi; pbounds(n,lo,hi); v.lo=std::floor(lo/den.get_d())-1; v.hi=std::floor(hi/den.get_d())+1; auto r=rvar(newVar(v)); return r; }
static Val ibin(unsigned op,const Val&a0,const Val&b0,unsigned bits){
    Val a=piecesFix(a0),b=piecesFix(b0);
    if(!a.sym()&&!b.sym()){ uint64_t x=a.u&mask(bits),y=b.u&mask(bits),r=0; int64_t s=sx(x,bits),t=sx(y,bits);
        switch(op){ case Instruction::Add: r=x+y; break; case Instruction::Sub: r=x-y; break; case Instruction::Mul: r=x*y; break; case Instruction::And: r=x&y; break; case Instruction::Or: r=x|y; break; case Instruction::Xor: r=x^y; break; case Instruction::Shl: r=y>=64?0:x<<y; break; case Instruction::LShr: r=y>=64?0:x>>y; break; case Instruction::AShr: r=(uint64_t)(s>>std::min<uint64_t>(y,63)); break;
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: if(y==0) path_error("domain","integer division by zero"); if(op==Instruction::UDiv) r=x/y; else if(op==Instruction::URem) r=x%y; else if(op==Instruction::SDiv) r= t==-1?-(uint64_t)s:(uint64_t)(s/t); else r= t==-1?0:(uint64_t)(s%t); break; }
        return Val(r&mask(bits)); }
    chkUndef(a,"integer arithmetic"); chkUndef(b,"integer arithmetic");
    if(bits==1){ BP x=asBool(a),y=asBool(b); if(op==Instruction::And) return mkBool(band(x,y)); if(op==Instruction::Or) return mkBool(bor(x,y)); if(op==Instruction::Xor||op==Instruction::Add||op==Instruction::Sub){ if(!b.sym()) return mkBool((b.u&1)?bnot(x):x); if(!a.sym()) return mkBool((a.u&1)?bnot(y):y); return mkBool(bor(band(x,bnot(y)),band(bnot(x),y))); } }
    if((a.sym()&&a.s->k==S_BOOL)&&(!b.sym()||b.s->k==S_BOOL)&&bits==8&&(op==Instruction::And||op==Instruction::Or||op==Instruction::Xor)&&(b.sym()||b.u<=1)) return ibin(op,a,b,1);
    if(a.sym()&&a.s->k==S_PIECES&&!b.sym()){ if(op==Instruction::LShr&&b.u%8==0){ for(auto&p:a.s->pieces) if(p.first==b.u/8&&p.first+p.second.s->bytes==a.s->bytes) return p.second; uint64_t hi=b.u/8; bool any=false; for(auto&p:a.s->pieces) if(p.first+p.second.s->bytes>hi) any=true; if(!any) return Val((a.u&mask(bits))>>b.u); } if(op==Instruction::And&&b.u==mask(32)){ for(auto&p:a.s->pieces) if(p.first==0&&p.second.s->bytes==4) return p.second; } }
    if((a.sym()&&a.s->k==S_PIECES)||(b.sym()&&b.s->k==S_PIECES)) unsupported("arithmetic on packed symbolic value");
    if(a.sym()&&a.s->k==S_NUM&&!a.s->r->isInt) unsupported("integer operation on the bits of a symbolic double");
    RP x=inum(a,bits),y=inum(b,bits);
    switch(op){
    case Instruction::Add: return mkInt(radd(x,y)); case Instruction::Sub: return mkInt(radd(x,y,-1)); case Instruction::Mul: return mkInt(rmul(x,y));
    case Instruction::Shl: if(!b.sym()&&b.u<62){ auto k=rconst(mpq_class(1L<<b.u)); auto r=std::make_shared<RF>(*rmul(x,k)); r->isInt=true; return mkInt(r); } break;
    case Instruction::UDiv: case Instruction::LShr: if(!nonneg(x)) { if(op==Instruction::LShr&&!b.sym()&&b.u==bits-1) return Val(1); break; } /* fallthrough */
    case Instruction::SDiv: case Instruction::AShr: { if(b.sym()) break; mpq_class d= (op==Instruction::AShr||op==Instruction::LShr)?mpq_class(1L<<b.u):mpq_class((long)sx(b.u,bits)); if(d<=0) break; bool neg=false; if(op==Instruction::SDiv) neg=!nonneg(x);
        // exact division of every coefficient
        bool ex=true; for(auto&t:x->n.t){ mpq_class c=t.second/d; if(c.get_den()!=1){ ex=false; break; } } if(ex){ auto r=std::make_shared<RF>(); r->isInt=true; r->n=pscale(x->n,1/d); return mkInt(r); }
        if(neg){ RP q=idivAtom(pscale(x->n,-1),d); auto r=std::make_shared<RF>(*rneg(q)); r->isInt=true; return mkInt(r); }
        return mkInt(idivAtom(x->n,d)); }
    case Instruction::URem: case Instruction::SRem: { if(b.sym()) break; mpq_class d((long)sx(b.u,bits)); if(d<=0) break; Val q=ibin(op==Instruction::URem?Instruction::UDiv:Instruction::SDiv,a,b,bits); return ibin(Instruction::Sub,a,ibin(Instruction::Mul,q,b,bits),bits); }
    case Instruction::And: if(!b.sym()){ uint64_t m=b.u&mask(bits); if(m==mask(bits)) return a; if(((m+1)&m)==0&&nonneg(x)){ double lo,hi; pbounds(x->n,lo,hi); if(hi<=(double)m) return a; Val q=ibin(Instruction::UDiv,a,Val(m+1),bits); return ibin(Instruction::Sub,a,ibin(Instruction::Mul,q,Val(m+1),bits),bits); } } break;
    }
    return ibin(op,Val((uint64_t)concretize(a)),Val((uint64_t)concretize(b)),bits);
}
static Val powV(const Val&a,const Val&b){
    if(!a.sym()&&!b.sym()) return VD(std::pow(AD(a),AD(b)));
    chkUndef(a,"pow"); chkUndef(b,"pow");
    if(!b.sym()){ double e=AD(b); if(e==std::floor(e)&&std::fabs(e)<=64){ RP x=num(a,true); if(e<0) fdom("division by zero",bcmp(BExpr::EQ,x->n)); RP r=rconst(1); for(int i=0;i<(int)std::fabs(e);i++) r=rmul(r,x); if(e<0) r=rdiv(rconst(1),r); return mkNum(r,true); }
        if(e==0.5) return sqrtV(a); if(e==-0.5) return fbin(Instruction::FDiv,VD(1),sqrtV(a)); if(e==1.5) return fbin(Instruction::FMul,a,sqrtV(a)); }
    if(!a.sym()&&AD(a)==1) return VD(1);
    RP x=num(a,true); learnDenSigns(x); fdom("pow of a negative base",bcmp(BExpr::LT,rcross(x)));
    return mkNum(funAtom("pow",{x,num(b,true)},0,INFINITY),true);
}
// interval of a rational function over the box (loose; infinite when a denominator may vanish)
static void rbounds(const RP&x,double&lo,double&hi){ pbounds(x->n,lo,hi); for(auto&d:x->d){ double a,b; pbounds(DT.p[d.first],a,b); if(!(a>0||b<0)){ lo=-INFINITY; hi=INFINITY; return; } for(uint32_t i=0;i<d.second;i++){ double q[4]={lo/a,lo/b,hi/a,hi/b}; lo=*std::min_element(q,q+4); hi=*std::max_element(q,q+4); double e=1e-12*std::max(std::fabs(lo),std::fabs(hi)); lo-=e; hi+=e; } } if(std::isnan(lo)||std::isnan(hi)){ lo=-INFINITY; hi=INFINITY; } }
static Val fun1(const std::string&f,const Val&a){
    double (*n)(double)=nullptr; if(f=="exp") n=std::exp; if(f=="log") n=std::log; if(f=="tanh") n=std::tanh; if(f=="sin") n=std::sin; if(f=="cos") n=std::cos; if(f=="tan") n=std::tan; if(f=="atan") n=std::atan; if(f=="acos") n=std::acos; if(f=="asin") n=std::asin; if(f=="sinh") n=std::sinh; if(f=="cosh") n=std::cosh; if(f=="log10") n=std::log10;
    if(!a.sym()) return VD(n(AD(a))); chkUndef(a,f.c_str()); RP x=num(a,true);
    if(f=="log"||f=="log10"){ learnDenSigns(x); fdom("logarithm of a non-positive number",bcmp(BExpr::LE,rcross(x))); }
    double lo=-INFINITY,hi=INFINITY; if(f=="exp") lo=0; if(f=="tanh"||f=="sin"||f=="cos"){ lo=-1; hi=1; } if(f=="cosh") lo=1;
    if(f=="cos"||f=="sin"){ // sin^2 = 1 - cos^2
        RP c=funAtom("cos",{x},-1,1); if(f=="cos") return mkNum(c,true);
        for(size_t i=0;i<VARS.size();i++) if(VARS[i].kind==A_FUN&&VARS[i].fn=="sin"&&rapprox(VARS[i].args[0],x)) return mkNum(rvar(i),true);
        Var v; v.kind=A_FUN; v.fn="sin"; v.args={x}; v.lo=-1; v.hi=1; v.name="sin#"+std::to_string(VARS.size()); v.order=2; v.red=padd(Poly::c(1),pmul(c->n,c->n),-1); return mkNum(rvar(newVar(v)),true); }
    if(f=="log"||f=="exp"||f=="tanh"||f=="atan"||f=="log10"){ double l,h; rbounds(x,l,h); bool lg=f[0]=='l'; if(std::isfinite(h)&&(!lg||h>0)){ double v=n(h); if(std::isfinite(v)) hi=std::min(hi,v+1e-9*(1+std::fabs(v))); } if(std::isfinite(l)&&(!lg||l>0)){ double v=n(l); if(std::isfinite(v)) lo=std::max(lo,v-1e-9*(1+std::fabs(v))); } } // monotone
    return mkNum(funAtom(f,{x},lo,hi),true);
}
static Val fmaxmin(bool mx,const Val&a,const Val&b){ if(!a.sym()&&!b.sym()) return VD(mx?std::fmax(AD(a),AD(b)):std::fmin(AD(a),AD(b))); Val c=fcmpV(CmpInst::FCMP_OLT,a,b); bool lt=c.sym()?decide(c.s->b):c.u; return (lt==mx)?b:a; }
// ================================================================ obligations
static std::unordered_set<std::string> BADLABELS;
static std::vector<std::array<double,3>> CONSTOB;
static std::string cstr(uint64_t a){ return a?std::string((const char*)a):""; }
static void obligBool(const BP&ok,const std::string&label){
    __sync_fetch_and_add(&ST->obligations,1); if(BADLABELS.count(label)) return;
    BP bad=bnot(ok);
    if(bad->k==BExpr::T){ violation("assert",label,bestModel(),"obligation is false on this path"); BADLABELS.insert(label); return; }
    if(bad->k==BExpr::F){ __sync_fetch_and_add(&ST->trivial,1); return; }
    std::vector<double> m; SmtRes r;
    for(auto&s:SAMPLES) if(beval(bad,s)==1){ // let the solver judge it with the inputs fixed at the sample
        std::vector<BP> c{bad}; std::set<VarId> vs; bvars(bad,vs); bool atoms=false; for(auto v:vs) if(VARS[v].kind!=V_REAL&&VARS[v].kind!=V_INT) atoms=true;
        if(!atoms){ for(auto v:vs) c.push_back(bcmp(BExpr::EQ,padd(Poly::v(v),Poly::c(dyad(s[v])),-1))); if(smt_query(c,false,nullptr,g_timeout_ms)==UNSAT) continue; }
        violation("assert",label,s,"obligation violated"); BADLABELS.insert(label); return; }
    r=smt_query({bad},true,&m,g_timeout_ms*2);
    if(r==UNSAT) return; if(r==SAT){ violation("assert",label,m,"obligation violated"); BADLABELS.insert(label); return; }
    inconclusive("unknown: "+label);
}
static void obligEq(const Val&a,const Val&b,double tol,const std::string&label){
    __sync_fetch_and_add(&ST->obligations,1); if(BADLABELS.count(label)) return;
    for(auto*v:{&a,&b}) if(v->sym()&&v->s->k==S_UNDEF){ violation("uninitialised",label,bestModel(),"result depends on uninitialised memory ("+v->s->why+")"); BADLABELS.insert(label); return; }
    if(!a.sym()&&!b.sym()){ double x=AD(a),y=AD(b); if(!(std::fabs(x-y)<=tol)){ char bf[200]; snprintf(bf,200,"%.17g vs %.17g on every input of this path",x,y); violation("eq",label,bestModel(),bf); BADLABELS.insert(label); } else { __sync_fetch_and_add(&ST->trivial,1); if(CONSTOB.size()<20000) CONSTOB.push_back({x,y,tol}); } return; }
    for(auto*v:{&a,&b}) if(!v->sym()&&!std::isfinite(AD(*v))){ violation("eq",label,bestModel(),"non-finite value"); BADLABELS.insert(label); return; }
    RP d=radd(num(a,true),num(b,true),-1);
    if(d->n.zero()){ __sync_fetch_and_add(&ST->trivial,1); if(CONSTOB.size()<20000) CONSTOB.push_back({0,0,tol}); return; }
    mpq_class t=dyad(tol); learnDenSigns(d);
    // lower bound of |denominator|
    mpq_class dmin=1; bool ok=true; Poly P=d->n;
    if(P.zero()) dmin=1; else for(auto&f:d->d){ double lo,hi; pboundsSub(DT.p[f.first],lo,hi); double best=0; if(lo>0) best=lo; else if(hi<0) best=-hi; else { for(double dl:{1.0,0.1,1e-2,1e-3,1e-4,1e-6}){ Poly q=DT.p[f.first]; Poly up=padd(q,Poly::c(dyad(dl)),-1),dn=pscale(padd(q,Poly::c(dyad(dl))),-1); // -dl<q<dl
                int s=DT.sign[f.first]; std::vector<BP> c{bcmp(BExpr::LT,up),bcmp(BExpr::LT,dn)}; (void)s; bool hit=false; for(auto&sm:SAMPLES) if(beval(c[0],sm)==1&&beval(c[1],sm)==1){ hit=true; break; } if(hit) continue; if(smt_query(c,true,nullptr,std::min(g_timeout_ms,3000))==UNSAT){ best=dl; break; } } }
            if(best<=0){ ok=false; break; } mpq_class b2=dyad(best); for(uint32_t i=0;i<f.second;i++) dmin*=b2; }
    if(ok){ SmtRes r=smt_lra_abs(P,t*dmin); if(r==UNSAT) return; }
    // |P| > tol*|D|   as P^2 > tol^2 D^2  or sign-split
    auto viol=[&](const std::vector<double>&m){ char bf[300]; snprintf(bf,300,"|difference| = %.6g > %.3g : ",std::fabs(reval(d,m)),tol); violation("eq",label,m,std::string(bf)+rstr(d).substr(0,400)); BADLABELS.insert(label); };
    { double best=0; const std::vector<double>*bs=nullptr; for(auto&s:SAMPLES){ double v=std::fabs(reval(d,s)); double mag; peval(P,s,&mag); double dd=1; for(auto&f:d->d) for(uint32_t i=0;i<f.second;i++) dd*=peval(DT.p[f.first],s,nullptr); if(v>2*tol&&std::fabs(v*dd)>1e-9*mag&&v>best&&std::isfinite(v)){ best=v; bs=&s; } }
      if(bs){ // confirm with the solver: fix the inputs at the sample point
          std::vector<BP> c; Poly Dp=Poly::c(1); for(auto&f:d->d) for(uint32_t i=0;i<f.second;i++) Dp=pmul(Dp,DT.p[f.first]);
          std::set<VarId> vs; pvars(P,vs); pvars(Dp,vs); bool atoms=false; for(auto v:vs){ if(VARS[v].kind!=V_REAL&&VARS[v].kind!=V_INT) atoms=true; }
          if(!atoms){ for(auto v:vs) c.push_back(bcmp(BExpr::EQ,padd(Poly::v(v),Poly::c(dyad((*bs)[v])),-1))); Poly PP=padd(pmul(P,P),pscale(pmul(Dp,Dp),t*t),-1); c.push_back(bcmp(BExpr::LT,pscale(PP,-1))); SmtRes r=smt_query(c,false,nullptr,g_timeout_ms); if(r==UNSAT){ goto full; } }
          viol(*bs); return; } }
full:
    { Poly Dp=Poly::c(1); bool pos=true; for(auto&f:d->d){ for(uint32_t i=0;i<f.second;i++) Dp=pmul(Dp,DT.p[f.first]); }
      (void)pos; for(int sg=1;sg>=-1;sg-=2) for(int ds=1;ds>=-1;ds-=2){ if(d->d.empty()&&ds<0) continue; // sg*P > tol*ds*D with ds*D>0
          std::vector<BP> c; if(!d->d.empty()) c.push_back(bcmp(BExpr::LT,pscale(Dp,-ds))); c.push_back(bcmp(BExpr::LT,padd(pscale(Dp,t*ds),pscale(P,sg),-1))); std::vector<double> m; SmtRes r=smt_query(c,true,&m,g_timeout_ms*2); if(r==UNSAT) continue; if(r==SAT){ for(size_t i=0;i<VARS.size();i++) if(VARS[i].kind!=V_REAL&&VARS[i].kind!=V_INT) m[i]=atom_eval(VARS[i],m); viol(m); return; } inconclusive("unknown: "+label+" residual "+rstr(d).substr(0,300)); return; } }
}
static void obligLe(const Val&a,const Val&b,double slack,const std::string&label){
    for(auto*v:{&a,&b}) if(v->sym()&&v->s->k==S_UNDEF){ violation("uninitialised",label,bestModel(),"result depends on uninitialised memory"); return; }
    if(!a.sym()&&!b.sym()){ __sync_fetch_and_add(&ST->obligations,1); if(!(AD(a)<=AD(b)+slack)){ if(BADLABELS.insert(label).second) violation("le",label,bestModel(),std::to_string(AD(a))+" <= "+std::to_string(AD(b))); } else __sync_fetch_and_add(&ST->trivial,1); return; }
    RP x=num(a,true),y=radd(num(b,true),rconst(dyad(slack)));
    { RP d=radd(x,y,-1); if(d->d.empty()){ double lo,hi; pbounds(d->n,lo,hi); if(hi<=0){ // linear abstraction shows it
            __sync_fetch_and_add(&ST->obligations,1); if(smt_query({bcmp(BExpr::LT,pscale(d->n,-1))},true,nullptr,g_timeout_ms)==UNSAT) return; __sync_fetch_and_add(&ST->obligations,-1); } } }
    obligBool(cmpR(BExpr::LE,x,y),label);
}
// ================================================================ I/O tokens for symbolic numbers
static std::vector<Val> TOKENS; static const double TOKBASE=880000000000.0;
static std::string tokenOf(const Val&v){ TOKENS.push_back(v); char b[64]; snprintf(b,64,"%.0f",TOKBASE+TOKENS.size()-1); return b; }
static bool tokenVal(double d,Val&v){ double k=d-TOKBASE; if(k>=0&&k<TOKENS.size()&&k==std::floor(k)){ v=TOKENS[(size_t)k]; return true; } return false; }
// ================================================================ execution
static Val callFn(Function*F,std::vector<Val>&args,const CallBase*cb);
static Val exec(DF*d,std::vector<Val>&args);
struct Ret2 { uint64_t a,b; };
typedef Ret2 (*NatI)(uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,double,double,double,double,double,double,double,double);
typedef double (*NatD)(uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,double,double,double,double,double,double,double,double);
typedef float (*NatF)(uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,double,double,double,double,double,double,double,double);
static Val nativeCall(void*fn,FunctionType*ft,std::vector<Val>&args,const std::string&name){
    uint64_t gi[6]={0}; double gd[8]={0}; int ni=0,nd=0; uint64_t st[8]; (void)st;
    for(size_t i=0;i<args.size();i++){ Type*t= i<ft->getNumParams()?ft->getParamType(i):nullptr; bool fp=t&&t->isFloatingPointTy(); Val v=args[i];
        if(fp){ if(v.sym()) unsupported("native call "+name+" with a symbolic double"); if(nd>=8) unsupported("too many fp args"); if(t->isFloatTy()){ float f=AD(v); uint64_t u=0; memcpy(&u,&f,4); memcpy(&gd[nd++],&u,8);} else gd[nd++]=AD(v); }
        else { if(v.sym()) v=Val((uint64_t)concretize(v)); if(ni>=6) unsupported("native call "+name+" with more than 6 integer args"); gi[ni++]=v.u; } }
    for(int i=0;i<ni;i++) if(inArena(gi[i])||inStk(gi[i])){ Obj*o=findObj(gi[i]); if(o&&o->init) std::fill(o->init->begin(),o->init->end(),true); }
    Type*rt=ft->getReturnType();
    try{
        if(rt->isDoubleTy()) return VD(((NatD)fn)(gi[0],gi[1],gi[2],gi[3],gi[4],gi[5],gd[0],gd[1],gd[2],gd[3],gd[4],gd[5],gd[6],gd[7]));
        if(rt->isFloatTy()) return VD(((NatF)fn)(gi[0],gi[1],gi[2],gi[3],gi[4],gi[5],gd[0],gd[1],gd[2],gd[3],gd[4],gd[5],gd[6],gd[7]));
        if(rt->isX86_FP80Ty()) unsupported("native long double "+name);
        Ret2 r=((NatI)fn)(gi[0],gi[1],gi[2],gi[3],gi[4],gi[5],gd[0],gd[1],gd[2],gd[3],gd[4],gd[5],gd[6],gd[7]);
        if(rt->isStructTy()){ Val v; v.s=std::make_shared<Sym>(); v.s->k=S_AGG; v.s->agg={Val(r.a),Val(r.b)}; return v; }
        if(rt->isVoidTy()) return Val(0); if(rt->isIntegerTy()) return Val(r.a&mask(rt->getIntegerBitWidth())); return Val(r.a);
    } catch(PathEnd&){ throw; } catch(std::exception&e){ path_error("exception",std::string("exception from ")+name+": "+e.what()); } catch(...){ path_error("exception","exception from "+name); }
    return Val(0);
}
typedef std::function<Val(std::vector<Val>&,const CallBase*)> Builtin;
static std::unordered_map<std::string,Builtin> BI;
static VarId inputVar(const std::string&name,bool isInt,double lo,double hi){ Var v; v.name=name; for(auto&x:VARS) if((x.kind==V_REAL||x.kind==V_INT)&&x.name==name){ inconclusive("duplicate input name "+name); throw PathEnd{"dup"}; } v.kind=isInt?V_INT:V_REAL; v.isInt=isInt; v.lo=lo; v.hi=hi; return newVar(v); }
static void raceCheck(const std::string&where){
    // per-byte: last writer tid / readers
    std::unordered_map<uint64_t,std::pair<int,int>> w; // addr -> writer tid (or -2 multiple), reader tid
    for(auto&a:ACCS) if(a.w) for(unsigned i=0;i<a.n;i++){ auto it=w.find(a.a+i); if(it==w.end()) w[a.a+i]={a.tid,-1}; else if(it->second.first!=a.tid){ path_error("race","two threads write the same location in the parallel region "+where); } }
    for(auto&a:ACCS) if(!a.w) for(unsigned i=0;i<a.n;i++){ auto it=w.find(a.a+i); if(it!=w.end()&&it->second.first!=a.tid) path_error("race","a location written by one thread is read by another in the parallel region "+where); }
}
static int OMPN=1; static bool INPAR=false; static long DISP_LB,DISP_UB,DISP_ST; static std::map<int,bool> DISP_DONE;
static void setupBuiltins(){
    auto S=[](std::vector<Val>&a,int i){ return cstr(a[i].u); };
    BI["vc_real"]=[=](std::vector<Val>&a,const CallBase*){ return mkNum(rvar(inputVar(S(a,0),false,AD(a[1]),AD(a[2]))),true); };
    BI["vc_int"]=[=](std::vector<Val>&a,const CallBase*){ return mkNum(rvar(inputVar(S(a,0),true,(double)(int)a[1].u,(double)(int)a[2].u)),false); };
    BI["vc_choose"]=[=](std::vector<Val>&a,const CallBase*){ Val v=mkNum(rvar(inputVar(S(a,0),true,(double)(int)a[1].u,(double)(int)a[2].u)),false); return Val((uint64_t)(uint32_t)concretize(v)); };
    BI["vc_concrete"]=[=](std::vector<Val>&a,const CallBase*){ return Val((uint64_t)(uint32_t)concretize(a[0])); };
    BI["vc_assume"]=[=](std::vector<Val>&a,const CallBase*){ if(!a[0].sym()){ if(!(a[0].u&0xffffffff)) throw PathEnd{"assume"}; return Val(0); } if(!assumeB(asBool(a[0]))) throw PathEnd{"assume"}; return Val(0); };
    BI["vc_assume_le"]=[=](std::vector<Val>&a,const CallBase*){ Val c=fcmpV(CmpInst::FCMP_OLE,a[0],a[1]); if(!assumeB(asBool(c))) throw PathEnd{"assume"}; return Val(0); };
    BI["vc_assume_lt"]=[=](std::vector<Val>&a,const CallBase*){ Val c=fcmpV(CmpInst::FCMP_OLT,a[0],a[1]); if(!assumeB(asBool(c))) throw PathEnd{"assume"}; return Val(0); };
    BI["vc_eq"]=[=](std::vector<Val>&a,const CallBase*){ obligEq(a[0],a[1],AD(a[2]),S(a,3)); return Val(0); };
    BI["vc_le"]=[=](std::vector<Val>&a,const CallBase*){ obligLe(a[0],a[1],AD(a[2]),S(a,3)); return Val(0); };
    BI["vc_check"]=[=](std::vector<Val>&a,const CallBase*){ chkUndef(a[0],"assertion"); Val v=a[0]; obligBool(v.sym()?asBool(v):((v.u&0xffffffff)?btrue():bfalse()),S(a,1)); return Val(0); };
    BI["vc_reach"]=[=](std::vector<Val>&a,const CallBase*){ __sync_fetch_and_add(&ST->reach,1); return Val(0); };
    BI["vc_strict_domain"]=[=](std::vector<Val>&a,const CallBase*){ STRICT_DOM=a[0].u; return Val(0); };
    BI["vc_symbolic"]=[=](std::vector<Val>&a,const CallBase*){ return Val(1); };
    BI["vc_is_concrete"]=[=](std::vector<Val>&a,const CallBase*){ return Val(a[0].sym()?0:1); };
    BI["vc_note"]=[=](std::vector<Val>&a,const CallBase*){ std::string s=S(a,0)+" = "; if(a[1].sym()){ if(a[1].s->k==S_NUM) s+=rstr(a[1].s->r); else s+="?"; } else s+=std::to_string(AD(a[1])); report("{\"ev\":\"note\",\"what\":\""+esc(s)+"\"}"); return Val(0); };
    BI["vc_steplimit"]=[=](std::vector<Val>&a,const CallBase*){ g_steplimit=(long)a[0].u; return Val(0); };
    BI["vc_live"]=[=](std::vector<Val>&a,const CallBase*){ long n=0; for(auto&o:OBJ) if(o.second.kind=='h'&&o.second.live) n++; return Val((uint64_t)n); };
    BI["vc_rank1_sample"]=[=](std::vector<Val>&a,const CallBase*){ return Val(0); };
    auto al=[=](std::vector<Val>&a,const CallBase*){ std::string who=CALLSTACK.empty()?"?":CALLSTACK.back().substr(0,80); int64_t n=concretize(a[0]); if(n<0||n>(int64_t)1<<31) path_error("memory","allocation of "+std::to_string(n)+" bytes"); return Val(heapAlloc(n,who.c_str())); };
    BI["_Znwm"]=BI["_Znam"]=BI["malloc"]=al; BI["_ZnwmRKSt9nothrow_t"]=BI["_ZnamRKSt9nothrow_t"]=al; BI["_ZnwmSt11align_val_t"]=BI["_ZnamSt11align_val_t"]=al;
    BI["calloc"]=[=](std::vector<Val>&a,const CallBase*){ size_t n=concretize(a[0])*concretize(a[1]); uint64_t p=heapAlloc(n,"calloc"); for(size_t i=0;i<n;i+=8) store(p+i,Val(0),std::min<size_t>(8,n-i)); return Val(p); };
    auto fr=[=](std::vector<Val>&a,const CallBase*){ chkUndef(a[0],"delete/free"); freeMem(concretize(a[0])); return Val(0); };
    for(auto n:{"_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","free","_ZdlPvSt11align_val_t","_ZdaPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) BI[n]=fr;
    auto cp=[=](std::vector<Val>&a,const CallBase*){ int64_t n=concretize(a[2]); if(n) copyMem(concretize(a[0]),concretize(a[1]),n); return a[0]; };
    BI["memcpy"]=BI["memmove"]=cp;
    BI["memset"]=[=](std::vector<Val>&a,const CallBase*){ int64_t n=concretize(a[2]); uint64_t d=concretize(a[0]); if(n){ check(d,n,true); if(RACE_ON) rec(d,n,true); if(!PAGES.empty()) clearShadow(d,n); memset((void*)d,(int)concretize(a[1]),n); Obj*o=findObj(d); if(o&&o->init) for(int64_t i=0;i<n;i++) (*o->init)[d-o->a+i]=true; } return a[0]; };
    BI["sqrt"]=[=](std::vector<Val>&a,const CallBase*){ return sqrtV(a[0]); };
    BI["fabs"]=[=](std::vector<Val>&a,const CallBase*){ return fabsV(a[0]); };
    BI["pow"]=[=](std::vector<Val>&a,const CallBase*){ return powV(a[0],a[1]); };
    for(std::string f:{"exp","log","tanh","sin","cos","tan","atan","acos","asin","sinh","cosh","log10"}) BI[f]=[=](std::vector<Val>&a,const CallBase*){ return fun1(f,a[0]); };
    BI["atan2"]=[=](std::vector<Val>&a,const CallBase*){ if(!a[0].sym()&&!a[1].sym()) return VD(std::atan2(AD(a[0]),AD(a[1]))); return mkNum(funAtom("atan2",{num(a[0],true),num(a[1],true)},-3.2,3.2),true); };
    BI["cbrt"]=[=](std::vector<Val>&a,const CallBase*){ if(!a[0].sym()) return VD(std::cbrt(AD(a[0]))); RP x=num(a[0],true); if(!x->d.empty()) unsupported("cbrt of a rational function"); return mkNum(rootAtom(x->n,3),true); };
    BI["fmax"]=[=](std::vector<Val>&a,const CallBase*){ return fmaxmin(true,a[0],a[1]); };
    BI["fmin"]=[=](std::vector<Val>&a,const CallBase*){ return fmaxmin(false,a[0],a[1]); };
    BI["hypot"]=[=](std::vector<Val>&a,const CallBase*){ if(!a[0].sym()&&!a[1].sym()) return VD(std::hypot(AD(a[0]),AD(a[1]))); return sqrtV(fbin(Instruction::FAdd,fbin(Instruction::FMul,a[0],a[0]),fbin(Instruction::FMul,a[1],a[1]))); };
    BI["fma"]=[=](std::vector<Val>&a,const CallBase*){ if(!a[0].sym()&&!a[1].sym()&&!a[2].sym()) return VD(std::fma(AD(a[0]),AD(a[1]),AD(a[2]))); return fbin(Instruction::FAdd,fbin(Instruction::FMul,a[0],a[1]),a[2]); };
    auto wr=[=](std::vector<Val>&a,const CallBase*){ if(a[1].sym()){ chkUndef(a[1],"output"); *(std::ostream*)a[0].u<<tokenOf(a[1]); } else *(std::ostream*)a[0].u<<AD(a[1]); return a[0]; };
    BI["_ZNSo9_M_insertIdEERSoT_"]=wr; BI["_ZNSolsEd"]=wr;
    auto wi=[=](std::vector<Val>&a,const CallBase*){ chkUndef(a[1],"output"); if(a[1].sym()) *(std::ostream*)a[0].u<<tokenOf(a[1]); else *(std::ostream*)a[0].u<<(int)a[1].u; return a[0]; };
    BI["_ZNSolsEi"]=wi;
    auto rd=[=](std::vector<Val>&a,const CallBase*){ double d=0; std::istream&is=*(std::istream*)a[0].u; is>>d; Val v; uint64_t p=a[1].u; if(is.fail()){ store(p,VD(0),8); return a[0]; } if(tokenVal(d,v)){ if(v.s&&v.s->k==S_NUM&&v.s->r->isInt){ Val w; w.s=std::make_shared<Sym>(*v.s); v=w; } store(p,v,8); } else store(p,VD(d),8); return a[0]; };
    BI["_ZNSi10_M_extractIdEERSiRT_"]=rd; BI["_ZNSirsERd"]=rd;
    auto stod_=[=](std::vector<Val>&a,const CallBase*){ char*e; double d=strtod((char*)a[0].u,&e); if(a[1].u) store(a[1].u,Val((uint64_t)e),8); Val v; if(tokenVal(d,v)) return v; return VD(d); };
    BI["strtod"]=stod_;
    BI["atof"]=[=](std::vector<Val>&a,const CallBase*){ double d=atof((char*)a[0].u); Val v; if(tokenVal(d,v)) return v; return VD(d); };
    BI["__cxa_atexit"]=[=](std::vector<Val>&a,const CallBase*){ return Val(0); };
    BI["__cxa_throw"]=[=](std::vector<Val>&a,const CallBase*)->Val{ path_error("exception","C++ exception thrown"); return Val(0); };
    BI["__assert_fail"]=[=](std::vector<Val>&a,const CallBase*)->Val{ path_error("assertion-failure","assert("+cstr(a[0].u)+")"); return Val(0); };
    BI["_ZSt21__glibcxx_assert_failPKciS0_S0_"]=[=](std::vector<Val>&a,const CallBase*)->Val{ path_error("memory","library assertion "+cstr(a[3].u)+" in "+cstr(a[2].u)); return Val(0); };
    BI["_ZSt9terminatev"]=[=](std::vector<Val>&a,const CallBase*)->Val{ path_error("terminate","terminate"); return Val(0); };
    BI["abort"]=[=](std::vector<Val>&a,const CallBase*)->Val{ path_error("abort","abort()"); return Val(0); };
    BI["exit"]=[=](std::vector<Val>&a,const CallBase*)->Val{ path_error("exit","exit()"); return Val(0); };
    BI["__clang_call_terminate"]=[=](std::vector<Val>&a,const CallBase*)->Val{ path_error("terminate","terminate"); return Val(0); };
    // OpenMP
    BI["omp_get_thread_num"]=[=](std::vector<Val>&a,const CallBase*){ return Val(TID); }; BI["omp_get_num_threads"]=[=](std::vector<Val>&a,const CallBase*){ return Val(OMPN); }; BI["omp_get_max_threads"]=[=](std::vector<Val>&a,const CallBase*){ return Val(OMP_T); };
    BI["__kmpc_global_thread_num"]=[=](std::vector<Val>&a,const CallBase*){ return Val(TID); };
    for(auto n:{"__kmpc_push_num_threads","__kmpc_for_static_fini","__kmpc_serialized_parallel","__kmpc_end_serialized_parallel","__kmpc_dispatch_fini_4","__kmpc_dispatch_fini_8","__kmpc_push_proc_bind","__kmpc_flush","omp_set_num_threads"}) BI[n]=[=](std::vector<Val>&a,const CallBase*){ return Val(0); };
    BI["__kmpc_barrier"]=[=](std::vector<Val>&a,const CallBase*){ if(INPAR&&OMPN>1&&getenv("SYMX_NOBARRIER")) unsupported("barrier inside a parallel region"); return Val(0); };
    BI["__kmpc_fork_call"]=[=](std::vector<Val>&a,const CallBase*cb){
        Function*f=FADDR[a[2].u]; if(!f) unsupported("fork_call target"); if(INPAR) unsupported("nested parallel"); INPAR=true; OMPN=OMP_T; ACCS.clear(); RACE_STK=(uint64_t)STK+STOP_; std::string nm=f->getName().str();
        for(int t=0;t<OMPN;t++){ TID=t; DISP_DONE.clear(); uint64_t sp=STOP_; uint64_t g=(uint64_t)STK+((STOP_+15)&~15ull)+16; STOP_=g-(uint64_t)STK+32; OBJ[g]=Obj{g,8,true,'s',"tid",nullptr}; LASTOBJ=nullptr; store(g,Val(t),4); store(g+4,Val(t),4); std::vector<Val> b{Val(g),Val(g+4)}; for(size_t i=3;i<a.size();i++) b.push_back(a[i]); RACE_ON=true; callFn(f,b,nullptr); RACE_ON=false; OBJ.erase(g); LASTOBJ=nullptr; STOP_=sp; }
        TID=0; raceCheck(nm); ACCS.clear(); INPAR=false; OMPN=1; return Val(0); };
    auto sinit=[=](std::vector<Val>&a,unsigned sz,bool uns){ bool r=RACE_ON; RACE_ON=false; uint64_t plast=a[3].u,plb=a[4].u,pub=a[5].u,pst=a[6].u; int64_t incr=sx(a[7].u,sz*8); int64_t lb=sx(concretize(load(plb,sz)),sz*8),ub=sx(concretize(load(pub,sz)),sz*8); int64_t n=incr>0?(ub-lb)/incr+1:(lb-ub)/(-incr)+1; if(incr>0?ub<lb:lb<ub) n=0; int64_t per=(n+OMPN-1)/OMPN; if(per<1) per=1; int64_t s=TID*per,e=std::min<int64_t>(n,s+per)-1;
        if(s>=n){ store(plb,Val((uint64_t)(ub+1)&mask(sz*8)),sz); store(pub,Val((uint64_t)ub&mask(sz*8)),sz); store(plast,Val(0),4); } else { store(plb,Val((uint64_t)(lb+s*incr)&mask(sz*8)),sz); store(pub,Val((uint64_t)(lb+e*incr)&mask(sz*8)),sz); store(plast,Val(e==n-1),4); }
        store(pst,Val((uint64_t)(n*incr)&mask(sz*8)),sz); RACE_ON=r; return Val(0); };
    BI["__kmpc_for_static_init_4"]=[=](std::vector<Val>&a,const CallBase*){ return sinit(a,4,false); }; BI["__kmpc_for_static_init_4u"]=[=](std::vector<Val>&a,const CallBase*){ return sinit(a,4,true); }; BI["__kmpc_for_static_init_8"]=[=](std::vector<Val>&a,const CallBase*){ return sinit(a,8,false); }; BI["__kmpc_for_static_init_8u"]=[=](std::vector<Val>&a,const CallBase*){ return sinit(a,8,true); };
    auto dinit=[=](std::vector<Val>&a,unsigned sz){ DISP_LB=sx(a[3].u,sz*8); DISP_UB=sx(a[4].u,sz*8); DISP_ST=sx(a[5].u,sz*8); DISP_DONE[TID]=false; return Val(0); };
    auto dnext=[=](std::vector<Val>&a,unsigned sz){ bool r=RACE_ON; RACE_ON=false; int64_t n=(DISP_UB-DISP_LB)/DISP_ST+1; if(DISP_ST>0?DISP_UB<DISP_LB:DISP_LB<DISP_UB) n=0; int64_t per=(n+OMPN-1)/OMPN; if(per<1) per=1; int64_t s=TID*per,e=std::min<int64_t>(n,s+per)-1; bool ok=!DISP_DONE[TID]&&s<n; DISP_DONE[TID]=true; if(ok){ if(a[2].u) store(a[2].u,Val(e==n-1),4); store(a[3].u,Val((uint64_t)(DISP_LB+s*DISP_ST)&mask(sz*8)),sz); store(a[4].u,Val((uint64_t)(DISP_LB+e*DISP_ST)&mask(sz*8)),sz); store(a[5].u,Val((uint64_t)DISP_ST&mask(sz*8)),sz); } RACE_ON=r; return Val(ok); };
    for(std::string u:{"4","4u"}){ BI["__kmpc_dispatch_init_"+u]=[=](std::vector<Val>&a,const CallBase*){ return dinit(a,4); }; BI["__kmpc_dispatch_next_"+u]=[=](std::vector<Val>&a,const CallBase*){ return dnext(a,4); }; }
    for(std::string u:{"8","8u"}){ BI["__kmpc_dispatch_init_"+u]=[=](std::vector<Val>&a,const CallBase*){ return dinit(a,8); }; BI["__kmpc_dispatch_next_"+u]=[=](std::vector<Val>&a,const CallBase*){ return dnext(a,8); }; }
    for(auto n:{"__kmpc_critical","__kmpc_critical_with_hint"}) BI[n]=[=](std::vector<Val>&a,const CallBase*){ RACE_ON=false; return Val(0); };
    for(auto n:{"__kmpc_end_critical"}) BI[n]=[=](std::vector<Val>&a,const CallBase*){ RACE_ON=INPAR; return Val(0); };
    for(auto n:{"__kmpc_reduce","__kmpc_reduce_nowait"}) BI[n]=[=](std::vector<Val>&a,const CallBase*){ RACE_ON=false; return Val(1); };
    for(auto n:{"__kmpc_end_reduce","__kmpc_end_reduce_nowait"}) BI[n]=[=](std::vector<Val>&a,const CallBase*){ RACE_ON=INPAR; return Val(0); };
    BI["__kmpc_single"]=BI["__kmpc_master"]=[=](std::vector<Val>&a,const CallBase*){ return Val(TID==0); }; BI["__kmpc_end_single"]=BI["__kmpc_end_master"]=[=](std::vector<Val>&a,const CallBase*){ return Val(0); };
}
static Val intrinsic(const DI&x,std::vector<Val>&a){
    auto sat=[&](unsigned op,bool sg)->Val{ unsigned bits=cast<StructType>(x.I->getType())->getElementType(0)->getIntegerBitWidth(); Val r; r.s=std::make_shared<Sym>(); r.s->k=S_AGG; if(a[0].sym()||a[1].sym()){ Val v=ibin(op,a[0],a[1],bits); if(v.sym()&&v.s->k==S_NUM&&op==Instruction::Sub&&!sg){ r.s->agg={v,Val(nonneg(v.s->r)?0:1)}; return r; } r.s->agg={v,Val(0)}; return r; }
        __int128 p,q; if(sg){ p=sx(a[0].u,bits); q=sx(a[1].u,bits); } else { p=a[0].u&mask(bits); q=a[1].u&mask(bits); } __int128 z= op==Instruction::Add?p+q: op==Instruction::Sub?p-q:p*q; bool ov; if(sg){ __int128 lim=(__int128)1<<(bits-1); ov=z>=lim||z<-lim; } else { ov=z<0||(bits>=64? z>>64: z>>bits)!=0; } r.s->agg={Val((uint64_t)z&mask(bits)),Val(ov)}; return r; };
    switch(x.intr){
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { int64_t n=concretize(a[2]); if(n) copyMem(concretize(a[0]),concretize(a[1]),n); return Val(0); }
    case Intrinsic::memset: { std::vector<Val> b{a[0],a[1],a[2]}; return BI["memset"](b,nullptr); }
    case Intrinsic::fabs: return fabsV(a[0]); case Intrinsic::sqrt: return sqrtV(a[0]); case Intrinsic::pow: return powV(a[0],a[1]);
    case Intrinsic::powi: { int e=(int)concretize(a[1]); return powV(a[0],VD(e)); }
    case Intrinsic::fmuladd: case Intrinsic::fma: return fbin(Instruction::FAdd,fbin(Instruction::FMul,a[0],a[1]),a[2]);
    case Intrinsic::exp: return fun1("exp",a[0]); case Intrinsic::log: return fun1("log",a[0]); case Intrinsic::sin: return fun1("sin",a[0]); case Intrinsic::cos: return fun1("cos",a[0]); case Intrinsic::log10: return fun1("log10",a[0]);
    case Intrinsic::exp2: return powV(VD(2),a[0]);
    case Intrinsic::maxnum: case Intrinsic::maximum: return fmaxmin(true,a[0],a[1]); case Intrinsic::minnum: case Intrinsic::minimum: return fmaxmin(false,a[0],a[1]);
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: { if(a[0].sym()){ if(a[0].s->k==S_NUM&&a[0].s->r->d.empty()){ bool ii=true; for(auto&t:a[0].s->r->n.t){ if(t.second.get_den()!=1) ii=false; for(auto&f:MT.m[t.first].f) if(!VARS[f.first].isInt) ii=false; } if(ii) return a[0]; } unsupported("rounding of a symbolic double"); } double d=AD(a[0]); return VD(x.intr==Intrinsic::floor?std::floor(d):x.intr==Intrinsic::ceil?std::ceil(d):x.intr==Intrinsic::trunc?std::trunc(d):x.intr==Intrinsic::round?std::round(d):std::rint(d)); }
    case Intrinsic::copysign: { if(a[0].sym()||a[1].sym()){ Val m=fabsV(a[0]); Val c=fcmpV(CmpInst::FCMP_OLT,a[1],VD(0)); bool ng=c.sym()?decide(c.s->b):(c.u||(!a[1].sym()&&std::signbit(AD(a[1])))); return ng?fnegV(m):m; } return VD(std::copysign(AD(a[0]),AD(a[1]))); }
    case Intrinsic::is_fpclass: { if(a[0].sym()) { unsigned m=a[1].u; return Val((m&0x1f8)?((m&0x3)?1:((m&0x204)==0x204?0:1)):0); } double d=AD(a[0]); unsigned c= std::isnan(d)?0x3: std::isinf(d)?(d<0?0x4:0x200): d==0?(std::signbit(d)?0x20:0x40): std::isnormal(d)?(d<0?0x8:0x100):(d<0?0x10:0x80); return Val((a[1].u&c)?1:0); }
    case Intrinsic::umul_with_overflow: return sat(Instruction::Mul,false); case Intrinsic::smul_with_overflow: return sat(Instruction::Mul,true); case Intrinsic::uadd_with_overflow: return sat(Instruction::Add,false); case Intrinsic::sadd_with_overflow: return sat(Instruction::Add,true); case Intrinsic::usub_with_overflow: return sat(Instruction::Sub,false); case Intrinsic::ssub_with_overflow: return sat(Instruction::Sub,true);
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { unsigned p= x.intr==Intrinsic::smax?CmpInst::ICMP_SGT: x.intr==Intrinsic::smin?CmpInst::ICMP_SLT: x.intr==Intrinsic::umax?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT; Val c=icmpV(p,a[0],a[1],x.bits); bool t=c.sym()?decide(asBool(c)):c.u; return t?a[0]:a[1]; }
    case Intrinsic::usub_sat: { Val c=icmpV(CmpInst::ICMP_UGT,a[0],a[1],x.bits); bool t=c.sym()?decide(asBool(c)):c.u; return t?ibin(Instruction::Sub,a[0],a[1],x.bits):Val(0); }
    case Intrinsic::abs: { Val c=icmpV(CmpInst::ICMP_SLT,a[0],Val(0),x.bits); bool t=c.sym()?decide(asBool(c)):c.u; return t?ibin(Instruction::Sub,Val(0),a[0],x.bits):a[0]; }
    case Intrinsic::expect: return a[0]; case Intrinsic::is_constant: return Val(0); case Intrinsic::objectsize: return Val(~0ull);
    case Intrinsic::stacksave: return Val(0); case Intrinsic::stackrestore: return Val(0); case Intrinsic::launder_invariant_group: return a[0];
    case Intrinsic::trap: case Intrinsic::ubsantrap: path_error("trap","trap"); return Val(0);
    case Intrinsic::eh_typeid_for: return Val(0); case Intrinsic::vastart: case Intrinsic::vaend: unsupported("varargs"); return Val(0);
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::ctlz: { uint64_t v=concretize(a[0])&mask(x.bits); return Val(v? __builtin_clzll(v)-(64-x.bits): x.bits); } case Intrinsic::cttz: { uint64_t v=concretize(a[0])&mask(x.bits); return Val(v? __builtin_ctzll(v): x.bits); } case Intrinsic::ctpop: return Val(__builtin_popcountll((uint64_t)concretize(a[0])&mask(x.bits)));
    case Intrinsic::fshl: { uint64_t p=concretize(a[0])&mask(x.bits),q=concretize(a[1])&mask(x.bits); unsigned s=concretize(a[2])%x.bits; return Val(s?((p<<s)|(q>>(x.bits-s)))&mask(x.bits):p); }
    }
    unsupported("intrinsic "+x.callee->getName().str()); return Val(0);
}
static int DEPTH=0;
static Val callFn(Function*F,std::vector<Val>&args,const CallBase*cb){
    std::string n; 
    if(isNativeStd(F)||F->getName().starts_with("vc_")){
        n=F->getName().str(); auto it=BI.find(n); if(it!=BI.end()) return it->second(args,cb);
        if(n.compare(0,7,"_ZNSols")==0||n.compare(0,14,"_ZNSo9_M_inser")==0){ if(args.size()>1&&args[1].sym()){ chkUndef(args[1],"output"); *(std::ostream*)args[0].u<<tokenOf(args[1]); return args[0]; } if(args.size()==2&&FADDR.count(args[1].u)&&!isNativeStd(FADDR[args[1].u])){ std::vector<Val> b{args[0]}; return callFn(FADDR[args[1].u],b,nullptr); } }
        if(n.compare(0,10,"_ZNSi10_M_")==0||n=="_ZNSirsERi"){ Val r; }
        void*p=dlsym(RTLD_DEFAULT,n.c_str()); if(!p){ unsupported("external function "+demangle(n)); }
        return nativeCall(p,cb?cb->getFunctionType():F->getFunctionType(),args,demangle(n));
    }
    auto it=BI.find(F->getName().str()); if(it!=BI.end()&&(F->getName().starts_with("__clang_call"))) return it->second(args,cb);
    DF*d=decode(F); SH->fn[d->id]=1;
    if(++DEPTH>1500) path_error("stack","call depth exceeds 1500");
    CALLSTACK.push_back(d->dem); Val r=exec(d,args); CALLSTACK.pop_back(); DEPTH--; return r;
}
static Val exec(DF*d,std::vector<Val>&args){
    std::vector<Val> R(d->nslots); for(int i=0;i<d->nargs&&i<(int)args.size();i++) R[i]=args[i];
    auto op=[&](int i)->const Val&{ return i>=0?R[i]:d->consts[-i-1]; };
    uint64_t sp=STOP_; std::vector<uint64_t> mine; int bb=0,prev=-1;
    auto leave=[&](){ for(auto a:mine){ auto it=OBJ.find(a); if(it!=OBJ.end()){ if(!PAGES.empty()) clearShadow(a,it->second.n); delete it->second.init; OBJ.erase(it); } } if(!mine.empty()) LASTOBJ=nullptr; STOP_=sp; };
    for(;;){
        DB&B=d->bb[bb];
        if(B.nphi){ std::vector<Val> t(B.nphi); for(size_t i=0;i<B.nphi;i++) for(auto&p:B.ins[i].phi) if(p.first==prev){ t[i]=op(p.second); break; } for(size_t i=0;i<B.nphi;i++) R[B.ins[i].dst]=t[i]; }
        bool jumped=false;
        for(size_t ii=B.nphi;ii<B.ins.size();ii++){
            const DI&x=B.ins[ii]; if(++STEPS>g_steplimit){ path_error("nontermination","no end after "+std::to_string(g_steplimit)+" IR steps"); }
            if((STEPS&0xfffff)==0&&SH->stop) throw PathEnd{"stopped"};
            switch(x.op){
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { const Val&a=op(x.ops[0]);const Val&b=op(x.ops[1]); Val r=fbin(x.op,a,b); if(x.I->getType()->isFloatTy()&&!r.sym()) r=VD((float)AD(r)); R[x.dst]=r; break; }
            case Instruction::FNeg: R[x.dst]=fnegV(op(x.ops[0])); break;
            case Instruction::FCmp: R[x.dst]=fcmpV(x.pred,op(x.ops[0]),op(x.ops[1])); break;
            case Instruction::ICmp: R[x.dst]=icmpV(x.pred,op(x.ops[0]),op(x.ops[1]),x.sbits); break;
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: R[x.dst]=ibin(x.op,op(x.ops[0]),op(x.ops[1]),x.bits); break;
            case Instruction::Alloca: { int64_t n=concretize(op(x.ops[0]))*x.size; uint64_t a=(uint64_t)STK+((STOP_+15)&~15ull)+16; STOP_=a-(uint64_t)STK+n+16; if(STOP_>=STK_SZ) path_error("stack","stack overflow"); OBJ[a]=Obj{a,(size_t)n,true,'s',"stack variable of "+d->dem.substr(0,60),new std::vector<bool>(n,false)}; LASTOBJ=nullptr; mine.push_back(a); R[x.dst]=Val(a); break; }
            case Instruction::Load: { const Val&p=op(x.ops[0]); uint64_t a=p.sym()?(uint64_t)concretize(p):p.u; if(x.size>8) { if(x.I->getType()->isStructTy()||x.I->getType()->isArrayTy()) unsupported("aggregate load"); unsupported("wide load"); } Val v=load(a,x.size); if(x.fp&&x.size==4&&!v.sym()){ float f; uint32_t u=v.u; memcpy(&f,&u,4); v=VD(f); } R[x.dst]=v; break; }
            case Instruction::Store: { const Val&p=op(x.ops[1]); uint64_t a=p.sym()?(uint64_t)concretize(p):p.u; Val v=op(x.ops[0]); if(v.sym()&&v.s->k==S_AGG){ unsupported("aggregate store"); } if(x.fp&&x.sbits==32&&!v.sym()){ float f=AD(v); uint32_t u; memcpy(&u,&f,4); v=Val(u); } if(x.size>8) unsupported("wide store"); store(a,v,x.size); break; }
            case Instruction::GetElementPtr: { Val p=op(x.ops[0]); bool sy=p.sym(); for(auto&s:x.sc) if(op(s.first).sym()) sy=true; if(!sy){ uint64_t a=p.u+x.off; for(size_t k=0;k<x.sc.size();k++) a+=(uint64_t)(sx(op(x.sc[k].first).u,x.idx[k])*x.sc[k].second); R[x.dst]=Val(a); } else { chkUndef(p,"pointer arithmetic"); Val r=ibin(Instruction::Add,p,Val((uint64_t)x.off),64); for(size_t k=0;k<x.sc.size();k++){ Val iv=op(x.sc[k].first); if(!iv.sym()) iv=Val((uint64_t)sx(iv.u,x.idx[k])); r=ibin(Instruction::Add,r,ibin(Instruction::Mul,iv,Val((uint64_t)x.sc[k].second),64),64); } R[x.dst]=r; } break; }
            case Instruction::Br: { prev=bb; if(x.ops.empty()) bb=x.succ[0]; else { const Val&c=op(x.ops[0]); bool t; if(!c.sym()) t=c.u&1; else t=decide(asBool(c)); bb=t?x.succ[0]:x.succ[1]; } jumped=true; break; }
            case Instruction::Switch: { prev=bb; Val c=piecesFix(op(x.ops[0])); int to=x.succ[0]; if(!c.sym()){ for(auto&k:x.cases) if((k.second&mask(x.sbits))==(c.u&mask(x.sbits))){ to=k.first; break; } } else { for(auto&k:x.cases){ Val e=icmpV(CmpInst::ICMP_EQ,c,Val(k.second),x.sbits); if(e.sym()?decide(asBool(e)):e.u){ to=k.first; break; } } } bb=to; jumped=true; break; }
            case Instruction::Select: { const Val&c=op(x.ops[0]); if(!c.sym()){ R[x.dst]=(c.u&1)?op(x.ops[1]):op(x.ops[2]); } else { const Val&a=op(x.ops[1]);const Val&b=op(x.ops[2]); if(x.bits==1&&!(a.sym()&&a.s->k==S_UNDEF)&&!(b.sym()&&b.s->k==S_UNDEF)){ BP cc=asBool(c),aa=asBool(a),bb2=asBool(b); R[x.dst]=mkBool(bor(band(cc,aa),band(bnot(cc),bb2))); } else R[x.dst]=decide(asBool(c))?a:b; } break; }
            case Instruction::ZExt: { Val v=piecesFix(op(x.ops[0])); if(!v.sym()) R[x.dst]=Val(v.u&mask(x.sbits)); else if(v.s->k==S_BOOL) R[x.dst]=v; else if(v.s->k==S_UNDEF) R[x.dst]=v; else { RP r=num(v,false); if(nonneg(r)) R[x.dst]=v; else R[x.dst]=ibin(Instruction::Add,v,Val(x.sbits<64?(1ull<<x.sbits):0),64); } break; }
            case Instruction::SExt: { Val v=op(x.ops[0]); if(!v.sym()) R[x.dst]=Val((uint64_t)sx(v.u,x.sbits)&mask(x.bits)); else if(v.s->k==S_BOOL) R[x.dst]=Val(decide(v.s->b)?mask(x.bits):0); else R[x.dst]=v; break; }
            case Instruction::Trunc: { Val v=op(x.ops[0]); if(!v.sym()) R[x.dst]=Val(v.u&mask(x.bits)); else if(v.s->k==S_UNDEF||v.s->k==S_BOOL) R[x.dst]=v; else if(v.s->k==S_PIECES){ bool done=false; for(auto&p:v.s->pieces) if(p.first==0&&p.second.s->bytes*8==x.bits){ R[x.dst]=p.second; done=true; } if(!done){ bool any=false; for(auto&p:v.s->pieces) if(p.first*8<x.bits) any=true; if(any) unsupported("trunc of packed symbolic"); R[x.dst]=Val(v.u&mask(x.bits)); } } else if(x.bits==1){ R[x.dst]=mkBool(bcmp(BExpr::EQ,padd(num(ibin(Instruction::And,v,Val(1),64),false)->n,Poly::c(1),-1))); } else { double lo,hi; pbounds(num(v,false)->n,lo,hi); double L=std::ldexp(1.0,x.bits-1); if(lo>=-L&&hi<2*L) R[x.dst]=v; else R[x.dst]=Val((uint64_t)concretize(v)&mask(x.bits)); } break; }
            case Instruction::SIToFP: case Instruction::UIToFP: { Val v=piecesFix(op(x.ops[0])); if(!v.sym()) R[x.dst]=VD(x.op==Instruction::SIToFP?(double)sx(v.u,x.sbits):(double)(v.u&mask(x.sbits))); else { chkUndef(v,"conversion"); auto r=std::make_shared<RF>(*num(v,false)); r->isInt=false; R[x.dst]=mkNum(r,true); } break; }
            case Instruction::FPToSI: case Instruction::FPToUI: { Val v=op(x.ops[0]); if(!v.sym()){ double dd=AD(v); R[x.dst]=Val((x.op==Instruction::FPToSI?(uint64_t)(int64_t)dd:(uint64_t)dd)&mask(x.bits)); } else { chkUndef(v,"conversion"); RP r=num(v,true); bool ii=r->d.empty(); for(auto&t:r->n.t){ if(t.second.get_den()!=1) ii=false; for(auto&f:MT.m[t.first].f) if(!VARS[f.first].isInt) ii=false; } if(!ii){ // floor/trunc of a real: introduce an integer quotient when the polynomial is scaled-integer
                        bool iv=r->d.empty(); mpz_class l=1; for(auto&t:r->n.t){ for(auto&f:MT.m[t.first].f) if(!VARS[f.first].isInt) iv=false; mpz_class dn=t.second.get_den(); l=lcm(l,dn); } if(iv&&l<1000000000){ RP sc=rmul(r,rconst(mpq_class(l))); if(nonneg(sc)){ R[x.dst]=mkInt(idivAtom(sc->n,mpq_class(l))); break; } RP q=idivAtom(pscale(sc->n,-1),mpq_class(l)); auto ng=std::make_shared<RF>(*rneg(q)); ng->isInt=true; R[x.dst]=mkInt(ng); break; }
                        // general real: integer variable k with k <= r < k+1 (r >= 0)
                        unsupported("conversion of a symbolic real to an integer"); } auto q=std::make_shared<RF>(*r); q->isInt=true; R[x.dst]=mkInt(q); } break; }
            case Instruction::FPExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::AddrSpaceCast: { Val v=op(x.ops[0]); R[x.dst]=v; break; }
            case Instruction::FPTrunc: { Val v=op(x.ops[0]); if(!v.sym()&&x.I->getType()->isFloatTy()) v=VD((float)AD(v)); R[x.dst]=v; break; }
            case Instruction::ExtractValue: { Val v=op(x.ops[0]); for(auto k:x.idx){ if(!v.s||v.s->k!=S_AGG) unsupported("extractvalue"); Val w=v.s->agg[k]; v=w; } R[x.dst]=v; break; }
            case Instruction::InsertValue: { Val v=op(x.ops[0]); if(x.idx.size()!=1||!v.s||v.s->k!=S_AGG) unsupported("insertvalue"); Val w; w.s=std::make_shared<Sym>(*v.s); w.s->agg[x.idx[0]]=op(x.ops[1]); R[x.dst]=w; break; }
            case Instruction::AtomicRMW: { bool r=RACE_ON; RACE_ON=false; auto*rm=cast<AtomicRMWInst>(x.I); uint64_t a=concretize(op(x.ops[0])); unsigned n=DL->getTypeStoreSize(rm->getType()); Val o=load(a,n); Val v=op(x.ops[1]),nv; switch(rm->getOperation()){ case AtomicRMWInst::Add: nv=ibin(Instruction::Add,o,v,n*8); break; case AtomicRMWInst::Sub: nv=ibin(Instruction::Sub,o,v,n*8); break; case AtomicRMWInst::FAdd: nv=fbin(Instruction::FAdd,o,v); break; case AtomicRMWInst::Xchg: nv=v; break; default: unsupported("atomicrmw"); } store(a,nv,n); R[x.dst]=o; RACE_ON=r; break; }
            case Instruction::Fence: break;
            case Instruction::AtomicCmpXchg: { bool rr=RACE_ON; RACE_ON=false; uint64_t a=concretize(op(x.ops[0])); unsigned n=DL->getTypeStoreSize(x.I->getOperand(1)->getType()); Val o=load(a,n); bool eq= (!o.sym()&&!op(x.ops[1]).sym())? o.u==op(x.ops[1]).u : true; if(eq) store(a,op(x.ops[2]),n); Val r; r.s=std::make_shared<Sym>(); r.s->k=S_AGG; r.s->agg={o,Val(eq)}; R[x.dst]=r; RACE_ON=rr; break; }
            case Instruction::Call: case Instruction::Invoke: {
                std::vector<Val> a; a.reserve(x.ops.size()); for(auto o:x.ops) a.push_back(op(o)); Val r;
                auto*cb=cast<CallBase>(x.I);
                for(unsigned i=0;i<cb->arg_size();i++) if(cb->isByValArgument(i)){ uint64_t src=concretize(a[i]); size_t n=DL->getTypeAllocSize(cb->getParamByValType(i)); uint64_t q=(uint64_t)STK+((STOP_+15)&~15ull)+16; STOP_=q-(uint64_t)STK+n+16; OBJ[q]=Obj{q,n,true,'s',"byval",new std::vector<bool>(n,false)}; LASTOBJ=nullptr; mine.push_back(q); copyMem(q,src,n); a[i]=Val(q); }
                if(x.intr) r=intrinsic(x,a);
                else if(x.callee) r=callFn(x.callee,a,cb);
                else { if(isa<InlineAsm>(cb->getCalledOperand())){ r=Val(0); } else { uint64_t f=concretize(op((int)x.off)); auto it=FADDR.find(f); if(it!=FADDR.end()) r=callFn(it->second,a,cb); else { if(inArena(f)||f<4096) path_error("memory","call through a bad function pointer"); r=nativeCall((void*)f,cb->getFunctionType(),a,"indirect"); } } }
                if(x.dst>=0) R[x.dst]=r;
                if(x.op==Instruction::Invoke){ prev=bb; bb=x.succ[0]; jumped=true; }
                break; }
            case Instruction::Ret: { Val r= x.ops.empty()?Val(0):op(x.ops[0]); leave(); return r; }
            case Instruction::Unreachable: path_error("unreachable","unreachable code reached (undefined behaviour)"); break;
            case Instruction::LandingPad: case Instruction::Resume: unsupported("exception handling"); break;
            default: unsupported(std::string("instruction ")+x.I->getOpcodeName());
            }
            if(jumped) break;
        }
    }
}
// ================================================================ main
static void crash(int s){ char b[200]; int n=snprintf(b,200,"{\"ev\":\"inconclusive\",\"entry\":\"%s\",\"what\":\"engine signal %d\"}\n",ENTRY.c_str(),s); if(write(REP,b,n)<0){} __sync_fetch_and_add(&ST->incomplete,1); endProcess(); _exit(3); }
int main(int argc,char**argv){
    // symx file.bc entry report.jsonl [--jobs N] [--timeout ms] [--maxpaths N] [--seed S] [--steps N]
    std::string bc=argv[1]; ENTRY=argv[2]; int jobs=8; long maxp=20000; long seed=1; int nsamp=12;
    for(int i=4;i<argc;i++){ std::string a=argv[i]; if(a=="--jobs") jobs=atoi(argv[++i]); else if(a=="--timeout") g_timeout_ms=atoi(argv[++i]); else if(a=="--maxpaths") maxp=atol(argv[++i]); else if(a=="--seed") seed=atol(argv[++i]); else if(a=="--steps") g_steplimit=atol(argv[++i]); else if(a=="--log") g_smt_log=1; else if(a=="--polylimit") g_poly_limit=(size_t)atof(argv[++i]); else if(a=="--samples") nsamp=atoi(argv[++i]); }
    { rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<((rlim_t)1<<29)&&!getenv("SYMX_RE")){ rl.rlim_cur= rl.rlim_max==RLIM_INFINITY?((rlim_t)1<<30):rl.rlim_max; if(setrlimit(RLIMIT_STACK,&rl)==0){ setenv("SYMX_RE","1",1); execv("/proc/self/exe",argv); } } }
    REP=open(argv[3],O_WRONLY|O_CREAT|O_APPEND,0644); RNG.seed(seed*7919+1);
    signal(SIGPIPE,SIG_IGN);
    LLVMContext ctx; SMDiagnostic err; M=parseIRFile(bc,err,ctx); if(!M){ std::cerr<<"cannot parse "<<bc<<"\n"; return 2; } DL=&M->getDataLayout();
    int nf=0; for(auto&F:*M){ FNID[F.getName().str()]=nf++; FNAMES.push_back(F.getName().str()); }
    SH=(Shared*)mmap(0,sizeof(Shared)+nf,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); ST=&SH->st; sem_init(&SH->tok,1,jobs-1); SH->maxpaths=maxp;
    ARENA=(char*)mmap((void*)0x200000000000ull,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); STK=(char*)mmap((void*)0x300000000000ull,STK_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    fflush(stdout); int dn=open("/dev/null",O_WRONLY); int so=dup(1); fcntl(so,F_SETFD,FD_CLOEXEC); dup2(dn,1); setupBuiltins(); (void)so;
    signal(SIGSEGV,crash); signal(SIGBUS,crash); signal(SIGFPE,crash); signal(SIGABRT,crash);
    SAMPLES.assign(nsamp,{});
    pid_t root=getpid(); std::string end="ok"; auto t0=time(0);
    try{
        // global constructors
        if(auto*gc=M->getGlobalVariable("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&u:ca->operands()){ auto*f=dyn_cast<Function>(cast<ConstantStruct>(u)->getOperand(1)->stripPointerCasts()); std::vector<Val> a; if(f) callFn(f,a,nullptr); }
        Function*F=M->getFunction(ENTRY); if(!F){ report("{\"ev\":\"inconclusive\",\"what\":\"no entry "+ENTRY+"\"}"); ST->incomplete++; } else { std::vector<Val> a; callFn(F,a,nullptr); }
    } catch(PathEnd&p){ end=p.why; } catch(TooBig&){ inconclusive("polynomial budget exhausted"); end="toobig"; } catch(std::bad_alloc&){ inconclusive("out of memory"); end="oom"; }
    if(end=="ok"&&!CONSTOB.empty()&&!smt_const_batch(CONSTOB)) inconclusive("constant batch");
    __sync_fetch_and_add(&ST->paths,1); __sync_fetch_and_add(&ST->steps,STEPS);
    if(end!="ok") report("{\"ev\":\"path\",\"end\":\""+esc(end)+"\"}");
    smt_close(); endProcess();
    if(getpid()==root){
        std::string fns; for(int i=0;i<nf;i++) if(SH->fn[i]){ if(!fns.empty()) fns+=","; fns+="\""+esc(demangle(FNAMES[i]))+"\""; }
        std::ostringstream o; o<<"{\"ev\":\"summary\",\"entry\":\""<<esc(ENTRY)<<"\",\"paths\":"<<ST->paths<<",\"forks\":"<<ST->forks<<",\"obligations\":"<<ST->obligations<<",\"trivial\":"<<ST->trivial<<",\"queries\":"<<ST->queries<<",\"lra\":"<<ST->lra<<",\"sat\":"<<ST->sat<<",\"unsat\":"<<ST->unsat<<",\"unknown\":"<<ST->unknown<<",\"solver_s\":"<<ST->solver_us/1e6<<",\"violations\":"<<ST->violations<<",\"inconclusive\":"<<ST->incomplete<<",\"assumed_domain\":"<<ST->assumed_dom<<",\"reach\":"<<ST->reach<<",\"steps\":"<<ST->steps<<",\"wall\":"<<(time(0)-t0)<<",\"inputs\":"<<modelJson(SAMPLES.empty()?std::vector<double>():SAMPLES[0])<<",\"functions\":["<<fns<<"]}"; report(o.str());
    }
    _exit(0);
}
