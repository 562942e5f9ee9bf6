// Native implementation of the harness API: replays one solver counterexample
// (SYM_REPLAY=file) against the code compiled without any instrumentation.
#include <csignal>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include "sym.hh"
static std::map<std::string, double> R;
static std::map<std::string, long> C;
struct U { std::string name; double val; std::vector<double> args; };
static std::vector<U> us;
static std::string scn, lab;
static std::map<std::string, int> cnt;
static std::string uniq(const std::string& n) { int k = cnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
static void fail(const std::string& l, const std::string& d) {
  std::cout << "REPRODUCED scenario=" << scn << " label=" << l << " : " << d << std::endl;
  if (l == lab) _exit(7);
}
namespace sym {
std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
bool symbolic() { return false; }
bool thorough() { return getenv("SYM_THOROUGH") != nullptr; }
double ratio(long a, long b) { return (double)a / b; }
double real(const std::string& n) { auto it = R.find(uniq(n)); return it == R.end() ? 0.25 : it->second; }
double real(const std::string& n, double lo, double hi) { auto it = R.find(uniq(n)); return it == R.end() ? (lo + hi) / 2 : it->second; }
static double cosOf(const std::string& n) { auto it = R.find(n); return it == R.end() ? 0.8 : it->second; }
long integer(const std::string& n, long lo, long) { auto it = R.find(uniq(n)); return it == R.end() ? lo : (long)it->second; }
double uf(const std::string& n, const std::vector<double>& args) {
  for (auto& u : us) if (u.name == n && u.args.size() == args.size()) {
    bool eq = true;
    for (size_t i = 0; i < args.size(); ++i) if (std::fabs(u.args[i] - args[i]) > 1e-7 * (1 + std::fabs(args[i]))) eq = false;
    if (eq) return u.val;
  }
  us.push_back(U{n, 0.25 + 0.125 * us.size(), args});
  return us.back().val;
}
double ufq(const std::string& n, const std::vector<double>& a) { return uf(n, a); }
double base(double v) { return v; }
bool zero(double v) { return v == 0; }
long choose(const std::string& n, long) { auto it = C.find(uniq(n)); return it == C.end() ? 0 : it->second; }
void unit(const std::string& name, double* x, int n) {
  double s = 0;
  for (int i = 0; i < n - 1; ++i) { x[i] = real(name + std::to_string(i), -1, 1); s += x[i] * x[i]; }
  bool neg = flag(name + ".neg");
  x[n - 1] = std::sqrt(std::max(0., 1 - s)); if (neg) x[n - 1] = -x[n - 1];
}
void angle(const std::string& name, double& th, double lo, double hi) {
  bool pos = lo >= 0;
  uniq(name + ".cos"); if (!pos) flag(name + ".neg");
  auto it = R.find(uniq(name)); th = it == R.end() ? (lo + hi) / 2 : it->second;
}
void assume(bool c) { if (!c) { std::cout << "ASSUMPTION not satisfied" << std::endl; _exit(3); } }
static double tolA(double a, double b) { return 1e-6 * (1 + std::fabs(a) + std::fabs(b)); }
void assume_le(double a, double b) { assume(a <= b + tolA(a, b)); }
void assume_lt(double a, double b) { assume(a < b + tolA(a, b)); }
void assume_eq(double a, double b) { assume(std::fabs(a - b) <= tolA(a, b)); }
void assume_ne(double, double) {}
void check(bool c, const std::string& l) { if (!c) fail(l, "condition is false"); }
void check_eq(double a, double b, const std::string& l, double tol) {
  bool ok = (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
  if (!ok) { std::ostringstream o; o.precision(12); o << a << " != " << b; fail(l, o.str()); }
}
void check_le(double a, double b, const std::string& l, double tol) {
  if (!(a <= b + tol * (1 + std::fabs(a) + std::fabs(b)))) { std::ostringstream o; o.precision(12); o << a << " > " << b; fail(l, o.str()); }
}
bool same(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }
void reached(const std::string&) {}
double eps() { return 0; }
double coef_eps(double) { return 0; }
std::vector<double> derivative(const std::function<std::vector<double>(double)>& f) {
  double h = 1e-5;
  std::vector<double> a = f(h), b = f(-h);
  for (size_t i = 0; i < a.size(); ++i) a[i] = (a[i] - b[i]) / (2 * h);
  return a;
}
void stop() { std::cout << "path ended without the violation" << std::endl; _exit(0); }
std::string show(double v) { std::ostringstream o; o.precision(12); o << v; return o.str(); }
void note(const std::string& s) { std::cout << "note " << s << std::endl; }
}  // namespace sym
static void onSig(int s) {
  signal(s, SIG_DFL);
  printf("SIGNAL %d\n", s); fflush(stdout);
  if (lab.find("no-") != 0 || s == SIGABRT) { void* b[30]; int n = backtrace(b, 30); backtrace_symbols_fd(b, n, 1); }
  if (lab.find("no-") == 0) { printf("REPRODUCED scenario=%s label=%s : signal %d\n", scn.c_str(), lab.c_str(), s); fflush(stdout); _exit(7); }
  _exit(4);
}
int main(int, char** argv) {
  const char* f = getenv("SYM_REPLAY");
  if (!f) return 2;
  std::ifstream in(f); std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k, n; is >> k;
    if (k == "scenario") is >> scn;
    else if (k == "label") { is >> std::ws; std::getline(is, lab); }
    else if (k == "C") { long v; is >> n >> v; C[n] = v; }
    else if (k == "R") { double v; is >> n >> v; R[n] = v; }
    else if (k == "I") { double v; is >> n >> v; R[n] = v; }
    else if (k == "U") { U u; size_t m; is >> u.name >> u.val >> m; u.args.resize(m); for (auto& x : u.args) is >> x; us.push_back(u); }
  }
  static char alt[1 << 16];  // a stack overflow is reported too
  stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onSig; a.sa_flags = SA_ONSTACK; sigaction(s, &a, nullptr); }
  for (auto& s : sym::scenarios()) if (scn == s.name) {
    try { s.fn(); }
    catch (const std::exception& e) {
      std::cout << "exception " << e.what() << std::endl;
      if (lab == "no-unexpected-exception") { std::cout << "REPRODUCED scenario=" << scn << " label=" << lab << " : " << e.what() << std::endl; _exit(7); }
      _exit(5);
    }
    std::cout << "end of scenario without the recorded violation" << std::endl;
    fflush(0);
    _exit(0);
  }
  return 2;
}
