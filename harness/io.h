// Stand-in streams for the I/O properties (symbolic run only): files are strings held in memory in which a number that is
// symbolic is a three-byte token (0x01 real / 0x02 integer + index into a table). The semantics of getline, >>, <<, eof, fail,
// clear, seekg follow the C++ standard. The replay uses the real streams and real files in a scratch directory.
// Must be included first.
#pragma once
#include <bits/stdc++.h>
#include "vc.h"
struct VcNum { double r; int i; bool isint; };
inline std::vector<VcNum>& vc_nums(){ static std::vector<VcNum> t; return t; }
#ifdef VC_REPLAY
#include <unistd.h>
inline std::string vc_r(double x){ char b[64]; snprintf(b,64,"%.17g",x); return b; }
inline std::string vc_i(int x){ return std::to_string(x); }
struct VcDir { std::string d; VcDir(){ char t[]="/tmp/vcioXXXXXX"; d=mkdtemp(t); } ~VcDir(){ std::error_code e; std::filesystem::remove_all(d,e); } };
inline std::string vc_dir(){ static VcDir d; return d.d; }
inline std::string vc_path(const std::string&n){ return vc_dir()+"/"+n; }
inline void vc_put(const std::string&n,const std::string&c){ std::ofstream f(vc_path(n),std::ios::binary); f<<c; }
inline std::string vc_get(const std::string&n){ std::ifstream f(vc_path(n)); std::stringstream s; s<<f.rdbuf(); return s.str(); }
#else
inline std::string vc_tok(char k,int i){ std::string s; s+=k; s+=(char)(i%150+100); s+=(char)(i/150+100); return s; }
inline std::string vc_r(double x){ vc_nums().push_back({x,0,false}); return vc_tok(1,(int)vc_nums().size()-1); }
inline std::string vc_i(int x){ vc_nums().push_back({0,x,true}); return vc_tok(2,(int)vc_nums().size()-1); }
inline std::map<std::string,std::string>& vc_files(){ static std::map<std::string,std::string> m; return m; }
inline std::string vc_path(const std::string&n){ return n; }
inline void vc_put(const std::string&n,const std::string&c){ vc_files()[n]=c; }
inline std::string vc_get(const std::string&n){ return vc_files()[n]; }
#endif
inline bool vc_ws(char c){ return c==' '||c=='\n'||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
// plain decimal parser (concrete text) or token lookup; returns characters consumed (0: not a number)
inline size_t vc_num(const std::string&s,size_t p,double*r,int*iv,bool wantint){
    if(p>=s.size()) return 0;
#ifndef VC_REPLAY
    if((s[p]==1||s[p]==2)&&p+2<s.size()){ const VcNum&v=vc_nums()[((unsigned char)s[p+1]-100)+150*((unsigned char)s[p+2]-100)]; if(wantint&&!v.isint) return 0; if(iv) *iv=v.i; if(r) *r=v.isint?(double)v.i:v.r; return 3; }
#endif
    size_t q=p; bool neg=false; if(s[q]=='+'||s[q]=='-'){ neg=s[q]=='-'; q++; } double m=0; long im=0; int dig=0; while(q<s.size()&&s[q]>='0'&&s[q]<='9'){ m=m*10+(s[q]-'0'); im=im*10+(s[q]-'0'); q++; dig++; }
    if(!wantint){ if(q<s.size()&&s[q]=='.'){ q++; double f=0.1; while(q<s.size()&&s[q]>='0'&&s[q]<='9'){ m+=f*(s[q]-'0'); f/=10; q++; dig++; } } if(dig&&q<s.size()&&(s[q]=='e'||s[q]=='E')){ size_t t=q+1; bool en=false; if(t<s.size()&&(s[t]=='+'||s[t]=='-')){ en=s[t]=='-'; t++; } int ex=0,ed=0; while(t<s.size()&&s[t]>='0'&&s[t]<='9'){ ex=ex*10+(s[t]-'0'); t++; ed++; } if(ed){ q=t; for(int k=0;k<ex;k++) m=en?m/10:m*10; } } }
    if(!dig) return 0; if(r) *r=neg?-m:m; if(iv) *iv=(int)(neg?-im:im); return q-p;
}
#ifndef VC_REPLAY
typedef std::ostream vc_real_ostream;
namespace std {
struct vc_ostream { std::string own; std::string*b=&own; std::string nm; bool op=false;
    vc_ostream(){} vc_ostream(const vc_ostream&)=delete;
    vc_ostream& put(char c){ *b+=c; return *this; } vc_ostream& write(const char*s,long n){ b->append(s,n); return *this; } vc_ostream& flush(){ return *this; } long precision(long=0){ return 6; }
    explicit operator bool() const { return true; } bool operator!() const { return false; } bool good() const { return true; } bool fail() const { return false; }
    vc_ostream& operator<<(const char*s){ *b+=s; return *this; } vc_ostream& operator<<(char c){ *b+=c; return *this; } vc_ostream& operator<<(const std::string&s){ *b+=s; return *this; }
    vc_ostream& operator<<(int x){ *b+=std::to_string(x); return *this; } vc_ostream& operator<<(long x){ *b+=std::to_string(x); return *this; } vc_ostream& operator<<(unsigned x){ *b+=std::to_string(x); return *this; } vc_ostream& operator<<(unsigned long x){ *b+=std::to_string(x); return *this; }
    vc_ostream& operator<<(double x){ *b+=vc_r(x); return *this; } vc_ostream& operator<<(float x){ *b+=vc_r(x); return *this; }
    vc_ostream& operator<<(vc_real_ostream&(*f)(vc_real_ostream&)){ if(f==static_cast<vc_real_ostream&(*)(vc_real_ostream&)>(std::endl)) *b+='\n'; return *this; }
    vc_ostream& operator<<(std::ios_base&(*)(std::ios_base&)){ return *this; } vc_ostream& operator<<(std::_Setprecision){ return *this; } vc_ostream& operator<<(std::_Setw){ return *this; } };
struct vc_ofstream : vc_ostream { vc_ofstream(){} explicit vc_ofstream(const std::string&n){ open(n); } void open(const std::string&n){ nm=n; b=&vc_files()[n]; b->clear(); op=true; } bool is_open() const { return op; } void close(){ op=false; b=&own; } };
struct vc_istream { std::string d; size_t p=0; bool e=false,f=false; 
    bool eof() const { return e; } bool fail() const { return f; } bool good() const { return !e&&!f; } bool bad() const { return false; } explicit operator bool() const { return !f; } bool operator!() const { return f; } void clear(){ e=f=false; }
    vc_istream& seekg(long o){ e=false; if(!f){ if(o<0||o>(long)d.size()) f=true; else p=o; } return *this; } vc_istream& seekg(long o,std::ios_base::seekdir w){ return seekg(w==std::ios_base::beg?o:w==std::ios_base::cur?(long)p+o:(long)d.size()+o); } long tellg(){ return f?-1:(long)p; }
    int peek(){ if(!good()) { f=true; return -1; } if(p>=d.size()){ e=true; return -1; } return (unsigned char)d[p]; } int get(){ if(!good()||p>=d.size()){ if(p>=d.size()) e=true; f=true; return -1; } return (unsigned char)d[p++]; }
    vc_istream& ignore(long n=1,int dl=-1){ while(n-->0){ int c=peek(); if(c<0){ break; } p++; if(c==dl) break; } return *this; }
    bool sentry(){ if(!good()){ f=true; return false; } while(p<d.size()&&vc_ws(d[p])) p++; if(p>=d.size()){ e=f=true; return false; } return true; }
    vc_istream& operator>>(std::string&s){ if(!sentry()) return *this; s.clear(); while(p<d.size()&&!vc_ws(d[p])) s+=d[p++]; if(p>=d.size()) e=true; return *this; }
    vc_istream& operator>>(double&x){ if(!sentry()) return *this; size_t k=vc_num(d,p,&x,0,false); if(!k){ x=0; f=true; } p+=k; if(p>=d.size()) e=true; return *this; }
    vc_istream& operator>>(float&x){ double y; *this>>y; x=y; return *this; }
    vc_istream& operator>>(int&x){ if(!sentry()) return *this; size_t k=vc_num(d,p,0,&x,true); if(!k){ x=0; f=true; } p+=k; if(p>=d.size()) e=true; return *this; }
    vc_istream& operator>>(unsigned long&x){ int y; *this>>y; x=y; return *this; } vc_istream& operator>>(char&c){ if(!sentry()) return *this; c=d[p++]; return *this; } };
struct vc_ifstream : vc_istream { bool op=false; vc_ifstream(){} explicit vc_ifstream(const std::string&n){ open(n); } void open(const std::string&n){ auto it=vc_files().find(n); if(it==vc_files().end()){ f=true; return; } d=it->second; p=0; e=f=false; op=true; } bool is_open() const { return op; } void close(){ if(!op) f=true; op=false; } };
struct vc_sstream : vc_istream { vc_sstream(){} explicit vc_sstream(const std::string&s){ d=s; } std::string str() const { return d; } void str(const std::string&s){ d=s; p=0; } vc_sstream& operator<<(const std::string&s){ d+=s; return *this; } using vc_istream::operator>>; };
inline vc_istream& getline(vc_istream&s,std::string&o,char dl='\n'){ if(!s.good()){ s.f=true; return s; } o.clear(); if(s.p>=s.d.size()){ s.e=s.f=true; return s; } for(;;){ if(s.p>=s.d.size()){ s.e=true; break; } char c=s.d[s.p++]; if(c==dl) break; o+=c; } return s; }
inline double vc_stod(const std::string&s,size_t*q=0){ double r=0; size_t p=0; while(p<s.size()&&vc_ws(s[p])) p++; size_t k=vc_num(s,p,&r,0,false); vc_true(k>0,"text converted to a number is a number"); if(q) *q=p+k; return r; }
inline float vc_stof(const std::string&s,size_t*q=0){ return vc_stod(s,q); }
inline int vc_stoi(const std::string&s,size_t*q=0,int=10){ int r=0; size_t p=0; while(p<s.size()&&vc_ws(s[p])) p++; size_t k=vc_num(s,p,0,&r,true); vc_true(k>0,"text converted to an integer is an integer"); if(q) *q=p+k; return r; }
inline unsigned long vc_stoul(const std::string&s,size_t*q=0,int=10){ return vc_stoi(s,q); }
inline vc_ostream& vc_cout_(){ static vc_ostream o; return o; }
}
#define ostream vc_ostream
#define ofstream vc_ofstream
#define istream vc_istream
#define ifstream vc_ifstream
#define istringstream vc_sstream
#define stringstream vc_sstream
#define stod vc_stod
#define stof vc_stof
#define stoi vc_stoi
#define stoul vc_stoul
#define cout vc_cout_()
#define cerr vc_cout_()
#endif
