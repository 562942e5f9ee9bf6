// Multivariate polynomials and factored fractions with rational coefficients,
// reduced modulo r^2 = X for declared algebraic variables, truncated at eps^2 = 0.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace poly {
typedef mpq_class Q;
typedef std::vector<std::pair<uint32_t, uint32_t>> Mono;  // (var, exp) sorted by var
struct MonoLess {
  bool operator()(const Mono& a, const Mono& b) const {  // lex order, larger var index = more significant
    size_t i = a.size(), j = b.size();
    while (i && j) {
      if (a[i - 1].first != b[j - 1].first) return a[i - 1].first < b[j - 1].first;
      if (a[i - 1].second != b[j - 1].second) return a[i - 1].second < b[j - 1].second;
      --i; --j;
    }
    return i == 0 && j != 0;
  }
};
typedef std::map<Mono, Q, MonoLess> Poly;
struct Frac { Poly num; std::map<int, int> den; };

enum { EPS = 0 };
bool isConst(const Poly& p);
Q constTerm(const Poly& p);
Poly pconst(const Q& q);
Poly pvar(uint32_t v);
Poly padd(const Poly& a, const Poly& b, const Q& s = 1);  // a + s*b
Poly pmul(const Poly& a, const Poly& b);                  // not reduced
Poly pscale(const Poly& a, const Q& s);
bool pdivexact(const Poly& a, const Poly& b, Poly& q);
void pvars(const Poly& p, std::set<uint32_t>& out);
bool plinear(const Poly& p);
std::string pstr(const Poly& p, size_t maxTerms = 40);

// algebraic relation r^2 = X
void setRelation(uint32_t r, const Frac& X);
bool hasRelation(uint32_t r);
const Frac& relation(uint32_t r);

Frac fconst(const Q& q);
Frac fvar(uint32_t v);
Frac fadd(const Frac& a, const Frac& b, int sign);
Frac fmul(const Frac& a, const Frac& b);
Frac fdiv(const Frac& a, const Frac& b);
Poly factor(int id);
Poly reducedProduct(const Poly& num, const std::map<int, int>& den, bool odd);  // num * prod f^(odd exps)
bool isConstF(const Frac& f, Q& q);
void splitEps(const Frac& f, Frac& f0, Frac& f1);  // f = f0 + eps f1
}  // namespace poly
extern std::string (*polyVarName)(uint32_t);
