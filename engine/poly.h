// Exact polynomial / rational-function arithmetic over symbolic variables and atoms.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint32_t MonoId;
typedef uint32_t VarId;

// ---------------------------------------------------------------- budget
extern size_t g_poly_work, g_poly_limit;
struct TooBig {};
inline void poly_charge(size_t n){ g_poly_work += n; if(g_poly_work > g_poly_limit) throw TooBig(); }

// ---------------------------------------------------------------- monomials
struct Mono {
    std::vector<std::pair<VarId,uint32_t>> f;   // sorted by var
    uint32_t deg = 0;
    bool reducible = false;                     // contains sqrt-like atom with exponent >= its order
};
struct MonoTable {
    std::vector<Mono> m;
    struct H { size_t operator()(const std::vector<std::pair<VarId,uint32_t>>& v) const { size_t h=1469598103934665603ull; for(auto&p:v){ h^=p.first*1000003ull+p.second; h*=1099511628211ull; } return h; } };
    std::unordered_map<std::vector<std::pair<VarId,uint32_t>>,MonoId,H> idx;
    std::unordered_map<uint64_t,MonoId> mulc;
    std::vector<uint32_t> order;                // order[var] = k if var^k reduces to a polynomial, 0 otherwise
    MonoTable(){ Mono one; m.push_back(one); idx[one.f]=0; }
    uint32_t ord(VarId v) const { return v<order.size()?order[v]:0; }
    MonoId get(const std::vector<std::pair<VarId,uint32_t>>& f){
        auto it=idx.find(f); if(it!=idx.end()) return it->second;
        Mono x; x.f=f; for(auto&p:f){ x.deg+=p.second; uint32_t o=ord(p.first); if(o&&p.second>=o) x.reducible=true; }
        MonoId id=m.size(); m.push_back(x); idx[f]=id; return id;
    }
    MonoId var(VarId v){ return get({{v,1}}); }
    MonoId mul(MonoId a,MonoId b){
        if(a==0) return b; if(b==0) return a; if(a>b) std::swap(a,b);
        uint64_t k=((uint64_t)a<<32)|b; auto it=mulc.find(k); if(it!=mulc.end()) return it->second;
        const auto&fa=m[a].f; const auto&fb=m[b].f; std::vector<std::pair<VarId,uint32_t>> r; r.reserve(fa.size()+fb.size());
        size_t i=0,j=0; while(i<fa.size()||j<fb.size()){
            if(j==fb.size()||(i<fa.size()&&fa[i].first<fb[j].first)) r.push_back(fa[i++]);
            else if(i==fa.size()||fb[j].first<fa[i].first) r.push_back(fb[j++]);
            else { r.push_back({fa[i].first,fa[i].second+fb[j].second}); i++; j++; } }
        MonoId id=get(r); mulc[k]=id; return id;
    }
    bool divides(MonoId a,MonoId b,MonoId&q){ // b / a
        const auto&fa=m[a].f; const auto&fb=m[b].f; std::vector<std::pair<VarId,uint32_t>> r; size_t i=0;
        for(size_t j=0;j<fb.size();j++){
            if(i<fa.size()&&fa[i].first<fb[j].first) return false;
            if(i<fa.size()&&fa[i].first==fb[j].first){ if(fa[i].second>fb[j].second) return false; if(fb[j].second>fa[i].second) r.push_back({fb[j].first,fb[j].second-fa[i].second}); i++; }
            else r.push_back(fb[j]); }
        if(i<fa.size()) return false; q=get(r); return true;
    }
    // graded lex: true if a > b
    bool greater(MonoId a,MonoId b) const {
        if(a==b) return false; const Mono&x=m[a];const Mono&y=m[b];
        if(x.deg!=y.deg) return x.deg>y.deg;
        size_t n=std::min(x.f.size(),y.f.size());
        for(size_t i=0;i<n;i++){ if(x.f[i].first!=y.f[i].first) return x.f[i].first<y.f[i].first; if(x.f[i].second!=y.f[i].second) return x.f[i].second>y.f[i].second; }
        return x.f.size()>y.f.size();
    }
};
extern MonoTable MT;

struct Poly {
    std::vector<std::pair<MonoId,mpq_class>> t;  // sorted by id, nonzero coefficients
    bool zero() const { return t.empty(); }
    bool isConst() const { return t.empty()||(t.size()==1&&t[0].first==0); }
    mpq_class constant() const { return t.empty()?mpq_class(0):t[0].second; }
    static Poly c(const mpq_class&q){ Poly p; if(q!=0) p.t.push_back({0,q}); return p; }
    static Poly v(VarId x){ Poly p; p.t.push_back({MT.var(x),1}); return p; }
    bool operator==(const Poly&o) const { return t==o.t; }
    size_t hash() const { size_t h=t.size(); for(auto&x:t){ h=h*1000003u+x.first; h=h*31+mpz_get_ui(x.second.get_num_mpz_t())*7+mpz_get_ui(x.second.get_den_mpz_t())+mpq_sgn(x.second.get_mpq_t()); } return h; }
};
Poly padd(const Poly&a,const Poly&b,int sign=1);
Poly pscale(const Poly&a,const mpq_class&k);
Poly pmul(const Poly&a,const Poly&b);
bool papprox(const Poly&a,const Poly&b);   // equal up to double rounding of the coefficients
bool pdivexact(const Poly&a,const Poly&b,Poly&q,size_t limit);

// ---------------------------------------------------------------- variables and atoms
enum VKind { V_REAL, V_INT, A_SQRT, A_FUN, A_BOOL, A_IDIV, A_IMOD, V_FRESH };
struct BExpr; typedef std::shared_ptr<BExpr> BP;
struct RF; typedef std::shared_ptr<const RF> RP;
struct Var {
    std::string name; VKind kind; double lo,hi;      // box
    Poly red; uint32_t order=0;                      // var^order = red  (A_SQRT: order 2 ; cbrt: order 3)
    std::string fn; std::vector<RP> args; BP b;      // A_FUN / A_BOOL
    Poly num; mpq_class den;                         // A_IDIV / A_IMOD: num (int poly) by den
    bool isInt=false;
};
extern std::vector<Var> VARS;

// ---------------------------------------------------------------- rational functions
struct RF {
    Poly n; std::vector<std::pair<uint32_t,uint32_t>> d;  // (den id, exp)
    bool isConst() const { return d.empty()&&n.isConst(); }
    bool isInt=false;   // integer valued (machine integer)
};
struct DenTable { std::vector<Poly> p; std::unordered_map<size_t,std::vector<uint32_t>> idx; std::vector<int> sign; };
extern DenTable DT;
RP rconst(const mpq_class&q); RP rvar(VarId v); RP rpoly(const Poly&p);
RP radd(const RP&a,const RP&b,int sign=1); RP rmul(const RP&a,const RP&b); RP rdiv(const RP&a,const RP&b);
RP rneg(const RP&a);
Poly rcross(const RP&a);          // numerator times odd-exponent denominators (sign-equivalent)
mpq_class dyad(double x);
void pbounds(const Poly&p,double&lo,double&hi);    // interval over the box
double mbound(MonoId m,double&lo,double&hi);
std::string rstr(const RP&r); std::string pstr(const Poly&p);
void pvars(const Poly&p,std::set<VarId>&s);
double peval(const Poly&p,const std::vector<double>&x,double*mag);

// ---------------------------------------------------------------- booleans
struct BExpr { enum K{T,F,LT,LE,EQ,AND,OR,NOT} k; Poly p; BP a,b; };  // p < 0, p <= 0, p == 0
BP btrue(); BP bfalse(); BP bcmp(BExpr::K k,const Poly&p); BP bnot(const BP&a); BP band(const BP&a,const BP&b); BP bor(const BP&a,const BP&b);
void bvars(const BP&b,std::set<VarId>&s);
int beval(const BP&b,const std::vector<double>&x);  // 1 true, 0 false, -1 too close
