// Harness API.  The same harness source is compiled twice: with the symbolic
// engine (clang + SymPass + rt.cpp), and natively (g++ + native.cpp) to replay a
// solver counterexample against the unmodified code.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sym {
bool symbolic();                                   // true in the engine
bool thorough();                                   // VERIF_TIER=thorough
double real(const std::string& name);              // any real number
double real(const std::string& name, double lo, double hi);
double ratio(long a, long b);                      // the exact constant a/b
double uf(const std::string& name, const std::vector<double>& args);  // uninterpreted function value
double ufq(const std::string& name, const std::vector<double>& args);  // same, equal only for provably equal arguments (no split)
double base(double v);                             // value without its eps part
bool zero(double v);                               // provably zero (no split)
long integer(const std::string& name, long lo, long hi);  // symbolic integer
long choose(const std::string& name, long n);      // 0..n-1, case split
inline bool flag(const std::string& name) { return choose(name, 2) == 1; }
void unit(const std::string& name, double* v, int n);     // unit vector of n reals (last component = +-sqrt)
void angle(const std::string& name, double& theta, double lo, double hi);  // real angle with known sin/cos
void assume(bool c);                               // drop the path if false
void assume_le(double a, double b);                // add constraints without splitting
void assume_lt(double a, double b);
void assume_eq(double a, double b);
void assume_ne(double a, double b);
void check(bool c, const std::string& label);      // obligations
// equality of reals; tol only matters natively and for rounded constants
void check_eq(double a, double b, const std::string& label, double tol = 1e-6);
void check_le(double a, double b, const std::string& label, double tol = 1e-6);
bool same(double a, double b);                     // decides equality (splits)
void reached(const std::string& label);            // vacuity witness
double eps();                                      // dual number (0 natively)
// derivative at t=0 of f; natively central differences
std::vector<double> derivative(const std::function<std::vector<double>(double t)>& f);
double coef_eps(double v);                         // coefficient of eps (symbolic only)
void stop();                                       // end this path
std::string show(double v);                        // debugging
void note(const std::string& s);                   // recorded with a counterexample
struct Scenario { const char* name; void (*fn)(); int tier; };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* n, void (*f)(), int t) { scenarios().push_back({n, f, t}); } };
}  // namespace sym
#define SCENARIO(n) static void n(); static sym::Reg reg_##n(#n, n, 0); static void n()
#define SCENARIO_THOROUGH(n) static void n(); static sym::Reg reg_##n(#n, n, 1); static void n()
