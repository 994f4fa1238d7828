#include "poly.h"
size_t g_poly_work=0,g_poly_limit=(size_t)4e8;
MonoTable MT; DenTable DT; std::vector<Var> VARS;

mpq_class dyad(double x){ mpq_class q; mpq_set_d(q.get_mpq_t(),x); return q; }

Poly padd(const Poly&a,const Poly&b,int sign){
    Poly r; r.t.reserve(a.t.size()+b.t.size()); poly_charge(a.t.size()+b.t.size());
    size_t i=0,j=0;
    while(i<a.t.size()||j<b.t.size()){
        if(j==b.t.size()||(i<a.t.size()&&a.t[i].first<b.t[j].first)) r.t.push_back(a.t[i++]);
        else if(i==a.t.size()||b.t[j].first<a.t[i].first){ r.t.push_back(b.t[j++]); if(sign<0) r.t.back().second=-r.t.back().second; }
        else { mpq_class c = sign>0? mpq_class(a.t[i].second+b.t[j].second):mpq_class(a.t[i].second-b.t[j].second); if(c!=0) r.t.push_back({a.t[i].first,c}); i++; j++; }
    }
    return r;
}
Poly pscale(const Poly&a,const mpq_class&k){ Poly r; if(k==0) return r; r=a; poly_charge(a.t.size()); for(auto&x:r.t) x.second*=k; return r; }
static Poly fromMap(std::unordered_map<MonoId,mpq_class>&acc){
    Poly r; r.t.reserve(acc.size()); for(auto&kv:acc) if(kv.second!=0) r.t.push_back({kv.first,std::move(kv.second)});
    std::sort(r.t.begin(),r.t.end(),[](auto&x,auto&y){return x.first<y.first;}); return r;
}
static Poly preduce(const Poly&p){
    bool any=false; for(auto&x:p.t) if(MT.m[x.first].reducible){ any=true; break; }
    if(!any) return p;
    Poly keep,extra;
    for(auto&x:p.t){
        if(!MT.m[x.first].reducible){ keep.t.push_back(x); continue; }
        std::vector<std::pair<VarId,uint32_t>> f; Poly mult=Poly::c(x.second); auto mf=MT.m[x.first].f;
        for(auto&q:mf){ uint32_t o=MT.ord(q.first); if(o&&q.second>=o){ uint32_t k=q.second/o,rem=q.second%o; Poly red=VARS[q.first].red; for(uint32_t i=0;i<k;i++) mult=pmul(mult,red); if(rem) f.push_back({q.first,rem}); } else f.push_back(q); }
        Poly m1; m1.t.push_back({MT.get(f),1}); extra=padd(extra,pmul(mult,m1));
    }
    return padd(keep,extra);
}
Poly pmul(const Poly&a,const Poly&b){
    if(a.zero()||b.zero()) return Poly();
    if(a.isConst()) return pscale(b,a.constant()); if(b.isConst()) return pscale(a,b.constant());
    poly_charge(a.t.size()*b.t.size());
    std::unordered_map<MonoId,mpq_class> acc; acc.reserve(a.t.size()+b.t.size());
    mpq_class tmp;
    for(auto&x:a.t) for(auto&y:b.t){ MonoId m=MT.mul(x.first,y.first); tmp=x.second*y.second; acc[m]+=tmp; }
    return preduce(fromMap(acc));
}
bool pdivexact(const Poly&a,const Poly&b,Poly&q,size_t limit){
    if(b.zero()) return false; if(a.zero()){ q=Poly(); return true; }
    if(b.isConst()){ q=pscale(a,1/b.constant()); return true; }
    auto lead=[&](const Poly&p){ size_t k=0; for(size_t i=1;i<p.t.size();i++) if(MT.greater(p.t[i].first,p.t[k].first)) k=i; return k; };
    auto trail=[&](const Poly&p){ size_t k=0; for(size_t i=1;i<p.t.size();i++) if(MT.greater(p.t[k].first,p.t[i].first)) k=i; return k; };
    size_t lb=lead(b); MonoId x;
    if(!MT.divides(b.t[lb].first,a.t[lead(a)].first,x)) return false;
    if(!MT.divides(b.t[trail(b)].first,a.t[trail(a)].first,x)) return false;
    if(b.t.size()>a.t.size()*4+8) return false;
    // division with ordered remainder
    auto cmp=[](MonoId p,MonoId q){ return MT.greater(p,q); };
    std::map<MonoId,mpq_class,decltype(cmp)> rem(cmp); for(auto&t:a.t) rem[t.first]=t.second;
    std::unordered_map<MonoId,mpq_class> quo; size_t work=0;
    while(!rem.empty()){
        auto it=rem.begin(); MonoId m; if(!MT.divides(b.t[lb].first,it->first,m)) return false;
        mpq_class c=it->second/b.t[lb].second; quo[m]+=c;
        for(auto&t:b.t){ MonoId k=MT.mul(m,t.first); if(MT.m[k].reducible) return false; auto r=rem.find(k); if(r==rem.end()) rem[k]=-c*t.second; else { r->second-=c*t.second; if(r->second==0) rem.erase(r); } }
        work+=b.t.size(); if(work>limit) return false;
    }
    poly_charge(work); q=fromMap(quo); return true;
}
// ---------------------------------------------------------------- RF
RP rconst(const mpq_class&q){ auto r=std::make_shared<RF>(); r->n=Poly::c(q); return r; }
RP rvar(VarId v){ auto r=std::make_shared<RF>(); r->n=Poly::v(v); r->isInt=VARS[v].isInt; return r; }
RP rpoly(const Poly&p){ auto r=std::make_shared<RF>(); r->n=p; return r; }
bool papprox(const Poly&a,const Poly&b){ // constants folded in a different order differ by a few ulps: such polynomials denote the same quantity
    double mx=0; for(auto&t:a.t) mx=std::max(mx,std::fabs(t.second.get_d())); for(auto&t:b.t) mx=std::max(mx,std::fabs(t.second.get_d()));
    size_t i=0,j=0; while(i<a.t.size()||j<b.t.size()){
        if(j==b.t.size()||(i<a.t.size()&&a.t[i].first<b.t[j].first)){ if(std::fabs(a.t[i].second.get_d())>1e-14*mx) return false; i++; }
        else if(i==a.t.size()||b.t[j].first<a.t[i].first){ if(std::fabs(b.t[j].second.get_d())>1e-14*mx) return false; j++; }
        else { if(a.t[i].second!=b.t[j].second){ double x=a.t[i].second.get_d(),y=b.t[j].second.get_d(); if(std::fabs(x-y)>1e-12*std::max(std::fabs(x),std::fabs(y))&&std::fabs(x-y)>1e-14*mx) return false; } i++; j++; } }
    return true;
}
static uint32_t denId(const Poly&p){ // p normalised
    size_t h=p.hash(); auto&v=DT.idx[h]; for(auto i:v) if(DT.p[i]==p) return i;
    for(size_t i=0;i<DT.p.size();i++) if(papprox(DT.p[i],p)) return i;
    DT.p.push_back(p); DT.sign.push_back(2); v.push_back(DT.p.size()-1); return DT.p.size()-1;
}
static Poly ppow(const Poly&p,uint32_t e){ Poly r=Poly::c(1); for(uint32_t i=0;i<e;i++) r=pmul(r,p); return r; }
static void cancel(RF&r){
    if(r.n.zero()){ r.d.clear(); return; }
    for(size_t i=0;i<r.d.size();){
        Poly q; bool did=false;
        while(r.d[i].second>0 && pdivexact(r.n,DT.p[r.d[i].first],q,200000)){ r.n=q; r.d[i].second--; did=true; if(r.n.isConst()) break; }
        if(r.d[i].second==0) r.d.erase(r.d.begin()+i); else i++; (void)did;
    }
}
RP rneg(const RP&a){ auto r=std::make_shared<RF>(*a); r->n=pscale(a->n,-1); return r; }
RP radd(const RP&a,const RP&b,int sign){
    auto r=std::make_shared<RF>(); r->isInt=a->isInt&&b->isInt;
    if(a->d==b->d){ r->n=padd(a->n,b->n,sign); r->d=a->d; if(!r->d.empty()) cancel(*r); return r; }
    Poly na=a->n,nb=b->n; size_t i=0,j=0;
    while(i<a->d.size()||j<b->d.size()){
        if(j==b->d.size()||(i<a->d.size()&&a->d[i].first<b->d[j].first)){ nb=pmul(nb,ppow(DT.p[a->d[i].first],a->d[i].second)); r->d.push_back(a->d[i++]); }
        else if(i==a->d.size()||b->d[j].first<a->d[i].first){ na=pmul(na,ppow(DT.p[b->d[j].first],b->d[j].second)); r->d.push_back(b->d[j++]); }
        else { uint32_t ea=a->d[i].second,eb=b->d[j].second; uint32_t id=a->d[i].first; if(ea<eb) na=pmul(na,ppow(DT.p[id],eb-ea)); if(eb<ea) nb=pmul(nb,ppow(DT.p[id],ea-eb)); r->d.push_back({id,std::max(ea,eb)}); i++; j++; }
    }
    r->n=padd(na,nb,sign); cancel(*r); return r;
}
static std::vector<std::pair<uint32_t,uint32_t>> mergeDen(const std::vector<std::pair<uint32_t,uint32_t>>&a,const std::vector<std::pair<uint32_t,uint32_t>>&b){
    std::vector<std::pair<uint32_t,uint32_t>> r; size_t i=0,j=0;
    while(i<a.size()||j<b.size()){ if(j==b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]); else if(i==a.size()||b[j].first<a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first,a[i].second+b[j].second}); i++; j++; } }
    return r;
}
RP rmul(const RP&a,const RP&b){
    auto r=std::make_shared<RF>(); r->isInt=a->isInt&&b->isInt;
    if(a->n.zero()||b->n.zero()) return r;
    if(a->d.empty()&&b->d.empty()){ r->n=pmul(a->n,b->n); return r; }
    // cross-cancel first
    RF x; x.n=a->n; x.d=b->d; RF y; y.n=b->n; y.d=a->d;
    cancel(x); cancel(y);
    r->n=pmul(x.n,y.n); r->d=mergeDen(x.d,y.d); return r;
}
RP rdiv(const RP&a,const RP&b){
    // a * b.d / b.n
    if(b->n.isConst()){ auto r=std::make_shared<RF>(*a); r->isInt=false; r->n=pscale(a->n,1/b->n.constant()); if(b->d.empty()) return r; auto bd=std::make_shared<RF>(); bd->n=Poly::c(1); for(auto&p:b->d) bd->n=pmul(bd->n,ppow(DT.p[p.first],p.second)); return rmul(r,bd); }
    RF inv; inv.n=Poly::c(1); for(auto&p:b->d) inv.n=pmul(inv.n,ppow(DT.p[p.first],p.second));
    Poly n=b->n;
    // single monomial content: split variables as separate denominators
    std::vector<std::pair<uint32_t,uint32_t>> ds;
    auto addDen=[&](Poly p,uint32_t e){ mpq_class lc=p.t[0].second; // normalise on first id
        if(lc!=1){ p=pscale(p,1/lc); mpq_class k=1; for(uint32_t i=0;i<e;i++) k*=lc; inv.n=pscale(inv.n,1/k); }
        uint32_t id=denId(p); ds=mergeDen(ds,{{id,e}}); };
    // common monomial factor
    { std::map<VarId,uint32_t> g; bool first=true; for(auto&t:n.t){ std::map<VarId,uint32_t> f; for(auto&p:MT.m[t.first].f) f[p.first]=p.second; if(first){ g=f; first=false; } else { for(auto it=g.begin();it!=g.end();){ auto k=f.find(it->first); if(k==f.end()) it=g.erase(it); else { it->second=std::min(it->second,k->second); ++it; } } } if(g.empty()) break; }
      if(!g.empty()){ std::vector<std::pair<VarId,uint32_t>> gf(g.begin(),g.end()); MonoId gm=MT.get(gf); Poly q; for(auto&t:n.t){ MonoId m; MT.divides(gm,t.first,m); q.t.push_back({m,t.second}); } std::sort(q.t.begin(),q.t.end(),[](auto&x,auto&y){return x.first<y.first;}); n=q; for(auto&p:gf) addDen(Poly::v(p.first),p.second); } }
    if(!n.isConst()){
        // split by known denominators
        size_t K=DT.p.size();
        for(size_t k=0;k<K&&!n.isConst();k++){ if(DT.p[k].t.size()==1) continue; if(DT.p[k].t.size()>n.t.size()*2+4) continue; Poly q; uint32_t e=0; while(!n.isConst()&&pdivexact(n,DT.p[k],q,100000)){ n=q; e++; } if(e) ds=mergeDen(ds,{{(uint32_t)k,e}}); }
    }
    if(n.isConst()) inv.n=pscale(inv.n,1/n.constant()); else addDen(n,1);
    inv.d=ds; cancel(inv);
    auto ip=std::make_shared<RF>(inv); auto r=rmul(a,ip); return r;
}
Poly rcross(const RP&a){ Poly p=a->n; for(auto&d:a->d) if(d.second&1){ int s=DT.sign[d.first]; if(s==1) continue; if(s==-1){ p=pscale(p,-1); continue; } p=pmul(p,DT.p[d.first]); } return p; }
void pvars(const Poly&p,std::set<VarId>&s){ for(auto&t:p.t) for(auto&f:MT.m[t.first].f) s.insert(f.first); }
double mbound(MonoId m,double&lo,double&hi){
    lo=hi=1; for(auto&f:MT.m[m].f){ double a=VARS[f.first].lo,b=VARS[f.first].hi; double l,h; 
        if(f.second%2==0){ double x=std::max(std::fabs(a),std::fabs(b)); h=std::pow(x,(double)f.second); l=(a<=0&&b>=0)?0:std::pow(std::min(std::fabs(a),std::fabs(b)),(double)f.second); }
        else { l=a<0?-std::pow(-a,(double)f.second):std::pow(a,(double)f.second); h=b<0?-std::pow(-b,(double)f.second):std::pow(b,(double)f.second); }
        auto mu=[](double x,double y){ if(x==0||y==0) return 0.0; return x*y; };
        double c[4]={mu(lo,l),mu(lo,h),mu(hi,l),mu(hi,h)}; lo=*std::min_element(c,c+4); hi=*std::max_element(c,c+4);
        lo-=std::fabs(lo)*1e-15; hi+=std::fabs(hi)*1e-15; }
    return std::max(std::fabs(lo),std::fabs(hi));
}
void pbounds(const Poly&p,double&lo,double&hi){ lo=hi=0; for(auto&t:p.t){ double l,h; mbound(t.first,l,h); double c=t.second.get_d(); if(c>=0){ lo+=c*l; hi+=c*h; } else { lo+=c*h; hi+=c*l; } double e=(std::fabs(lo)+std::fabs(hi)+std::fabs(c)*std::max(std::fabs(l),std::fabs(h)))*4e-16; if(t.second.get_den()!=1||std::fabs(c)>1e15){ lo-=e; hi+=e; } } }
double peval(const Poly&p,const std::vector<double>&x,double*mag){ double s=0,m=0; for(auto&t:p.t){ double v=t.second.get_d(); for(auto&f:MT.m[t.first].f) for(uint32_t i=0;i<f.second;i++) v*=x[f.first]; s+=v; m+=std::fabs(v); } if(mag)*mag=m; return s; }
std::string pstr(const Poly&p){ if(p.zero()) return "0"; std::string s; size_t n=0; for(auto&t:p.t){ if(n++>12){ s+=" + ...("+std::to_string(p.t.size())+" terms)"; break; } char b[64]; snprintf(b,64,"%s%.6g",s.empty()?"":" + ",t.second.get_d()); s+=b; for(auto&f:MT.m[t.first].f){ s+="*"+VARS[f.first].name; if(f.second>1) s+="^"+std::to_string(f.second); } } return s; }
std::string rstr(const RP&r){ std::string s="("+pstr(r->n)+")"; for(auto&d:r->d) s+="/("+pstr(DT.p[d.first])+")^"+std::to_string(d.second); return s; }
// ---------------------------------------------------------------- booleans
BP btrue(){ static BP x=std::make_shared<BExpr>(BExpr{BExpr::T,{},{},{}}); return x; }
BP bfalse(){ static BP x=std::make_shared<BExpr>(BExpr{BExpr::F,{},{},{}}); return x; }
BP bcmp(BExpr::K k,const Poly&p){
    if(p.isConst()){ int s=sgn(p.constant()); bool r= k==BExpr::LT? s<0: k==BExpr::LE? s<=0: s==0; return r?btrue():bfalse(); }
    return std::make_shared<BExpr>(BExpr{k,p,{},{}});
}
BP bnot(const BP&a){ if(a->k==BExpr::T) return bfalse(); if(a->k==BExpr::F) return btrue(); if(a->k==BExpr::NOT) return a->a;
    if(a->k==BExpr::LT) return bcmp(BExpr::LE,pscale(a->p,-1)); if(a->k==BExpr::LE) return bcmp(BExpr::LT,pscale(a->p,-1));
    return std::make_shared<BExpr>(BExpr{BExpr::NOT,{},a,{}}); }
BP band(const BP&a,const BP&b){ if(a->k==BExpr::F||b->k==BExpr::F) return bfalse(); if(a->k==BExpr::T) return b; if(b->k==BExpr::T) return a; return std::make_shared<BExpr>(BExpr{BExpr::AND,{},a,b}); }
BP bor(const BP&a,const BP&b){ if(a->k==BExpr::T||b->k==BExpr::T) return btrue(); if(a->k==BExpr::F) return b; if(b->k==BExpr::F) return a; return std::make_shared<BExpr>(BExpr{BExpr::OR,{},a,b}); }
void bvars(const BP&b,std::set<VarId>&s){ if(!b) return; pvars(b->p,s); bvars(b->a,s); bvars(b->b,s); }
int beval(const BP&b,const std::vector<double>&x){
    switch(b->k){
    case BExpr::T: return 1; case BExpr::F: return 0;
    case BExpr::LT: case BExpr::LE: case BExpr::EQ: { double m; double v=peval(b->p,x,&m); if(!(std::fabs(v)<=1e300)) return -1; bool exact=true; for(auto&t:b->p.t){ for(auto&f:MT.m[t.first].f) if(!VARS[f.first].isInt){ exact=false; break; } if(t.second.get_den()!=1) exact=false; if(!exact) break; }
        if(exact&&m<1e15){ return b->k==BExpr::LT? v<0: b->k==BExpr::LE? v<=0: v==0; }
        if(std::fabs(v)<=1e-9*m+1e-300) return -1; if(b->k==BExpr::EQ) return 0; return v<0; }
    case BExpr::NOT: { int r=beval(b->a,x); return r<0?-1:!r; }
    case BExpr::AND: { int l=beval(b->a,x),r=beval(b->b,x); if(l==0||r==0) return 0; if(l<0||r<0) return -1; return 1; }
    case BExpr::OR: { int l=beval(b->a,x),r=beval(b->b,x); if(l==1||r==1) return 1; if(l<0||r<0) return -1; return 0; }
    } return -1;
}
