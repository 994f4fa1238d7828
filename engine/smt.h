#pragma once
#include "poly.h"
enum SmtRes { UNSAT, SAT, UNKNOWN };
struct Stats { volatile long queries,unsat,sat,unknown,solver_us,paths,forks,obligations,violations,assumed_dom,steps,incomplete,reach,lra,trivial,pathlimit; };
extern Stats*ST; extern int g_timeout_ms; extern std::vector<BP> PC; extern int g_smt_log;
extern std::vector<std::vector<double>> SAMPLES;
SmtRes smt_query(const std::vector<BP>&cs,bool usePC,std::vector<double>*model,int timeout_ms);
// linear abstraction: every monomial an independent real within its box. Is |p| > bound impossible?
SmtRes smt_lra_abs(const Poly&p,const mpq_class&bound);
void smt_close();
double atom_eval(const Var&v,const std::vector<double>&x);
#include <array>
bool smt_const_batch(const std::vector<std::array<double,3>>&v);
