#include "poly.hh"
#include <sstream>
#include <stdexcept>
std::string (*polyVarName)(uint32_t) = nullptr;
namespace poly {
static std::map<uint32_t, Frac>& rels() { static std::map<uint32_t, Frac> r; return r; }
static std::vector<Poly>& factors() { static std::vector<Poly> f; return f; }
static std::map<std::string, int>& factorIds() { static std::map<std::string, int> f; return f; }

bool isConst(const Poly& p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
Q constTerm(const Poly& p) { auto it = p.find(Mono()); return it == p.end() ? Q(0) : it->second; }
Poly pconst(const Q& q) { Poly p; if (q != 0) p[Mono()] = q; return p; }
Poly pvar(uint32_t v) { Poly p; p[Mono{{v, 1}}] = 1; return p; }
static void addTo(Poly& r, const Mono& m, const Q& c) {
  auto ins = r.emplace(m, c);
  if (!ins.second) { ins.first->second += c; if (ins.first->second == 0) r.erase(ins.first); }
}
Poly padd(const Poly& a, const Poly& b, const Q& s) {
  if (a.size() < b.size() && s == 1) { Poly r = b; for (auto& t : a) addTo(r, t.first, t.second); return r; }
  Poly r = a;
  for (auto& t : b) addTo(r, t.first, s == 1 ? t.second : Q(t.second * s));
  return r;
}
Poly pscale(const Poly& a, const Q& s) {
  if (s == 0) return Poly();
  Poly r = a; for (auto& t : r) t.second *= s; return r;
}
static Mono mmul(const Mono& a, const Mono& b) {
  Mono r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); ++i; ++j; }
  }
  return r;
}
static bool eps2(const Mono& m) { return !m.empty() && m[0].first == EPS && m[0].second >= 2; }
Poly pmul(const Poly& a, const Poly& b) {
  Poly r;
  for (auto& x : a) for (auto& y : b) {
    Mono m = mmul(x.first, y.first);
    if (eps2(m)) continue;
    addTo(r, m, Q(x.second * y.second));
  }
  return r;
}
static bool mdiv(const Mono& a, const Mono& b, Mono& q) {
  q.clear(); size_t i = 0;
  for (auto& t : b) {
    while (i < a.size() && a[i].first < t.first) q.push_back(a[i++]);
    if (i >= a.size() || a[i].first != t.first || a[i].second < t.second) return false;
    if (a[i].second > t.second) q.push_back({t.first, a[i].second - t.second});
    ++i;
  }
  while (i < a.size()) q.push_back(a[i++]);
  return true;
}
bool pdivexact(const Poly& a, const Poly& b, Poly& q) {
  q.clear();
  if (b.empty()) return false;
  Poly r = a;
  const Mono& lb = b.rbegin()->first; const Q& cb = b.rbegin()->second;
  Mono m; size_t guard = 0;
  while (!r.empty()) {
    if (++guard > 5000) return false;
    if (!mdiv(r.rbegin()->first, lb, m)) return false;
    Q c = r.rbegin()->second / cb;
    addTo(q, m, c);
    for (auto& t : b) { Mono mm = mmul(m, t.first); addTo(r, mm, Q(-c * t.second)); }
  }
  return true;
}
void pvars(const Poly& p, std::set<uint32_t>& out) { for (auto& t : p) for (auto& x : t.first) out.insert(x.first); }
bool plinear(const Poly& p) {
  for (auto& t : p) { if (t.first.size() > 1) return false; if (t.first.size() == 1 && t.first[0].second > 1) return false; }
  return true;
}
std::string pstr(const Poly& p, size_t maxT) {
  if (p.empty()) return "0";
  std::ostringstream os; size_t n = 0;
  for (auto it = p.rbegin(); it != p.rend(); ++it) {
    if (n++) os << " + ";
    if (n > maxT) { os << "...(" << p.size() << " terms)"; break; }
    os << it->second.get_str();
    for (auto& x : it->first) { os << "*" << (polyVarName ? polyVarName(x.first) : "v" + std::to_string(x.first)); if (x.second > 1) os << "^" << x.second; }
  }
  return os.str();
}
void setRelation(uint32_t r, const Frac& X) { rels()[r] = X; }
bool hasRelation(uint32_t r) { return rels().count(r); }
const Frac& relation(uint32_t r) { return rels().at(r); }

static std::string key(const Poly& p) {
  std::string s;
  for (auto& t : p) { for (auto& x : t.first) { s.append((const char*)&x.first, 4); s.append((const char*)&x.second, 4); } s += '|'; s += t.second.get_str(62); s += ';'; }
  return s;
}
static int factorId(const Poly& monic) {
  std::string k = key(monic);
  auto it = factorIds().find(k);
  if (it != factorIds().end()) return it->second;
  int id = factors().size(); factors().push_back(monic); factorIds()[k] = id; return id;
}
Poly factor(int id) { return factors()[id]; }

static Poly ppow(const Poly& p, int e) { Poly r = pconst(1); for (int i = 0; i < e; ++i) r = pmul(r, p); return r; }
static Frac reduce(const Poly& p);
static Frac addRaw(const Frac& a, const Frac& b, int sign);
// multiply polynomial by polynomial, reduced
static Frac mulReduce(const Poly& a, const Poly& b) { return reduce(pmul(a, b)); }
static bool algFactor(int id, uint32_t& r) {
  const Poly& p = factors()[id];
  if (p.size() != 1) return false;
  const Mono& m = p.begin()->first;
  if (m.size() != 1 || m[0].second != 1 || !hasRelation(m[0].first)) return false;
  r = m[0].first; return true;
}
static void cancel(Frac& f) {
  if (f.num.empty()) { f.den.clear(); return; }
  // 1/r^2 = 1/X
  for (auto it = f.den.begin(); it != f.den.end(); ++it) {
    uint32_t r;
    if (it->second >= 2 && algFactor(it->first, r)) {
      int h = it->second / 2; it->second -= 2 * h;
      if (it->second == 0) f.den.erase(it);
      Frac X = relation(r);
      for (int k = 0; k < h; ++k) f = fdiv(f, X);
      cancel(f);
      return;
    }
  }
  if (f.num.size() > 400) return;
  for (auto it = f.den.begin(); it != f.den.end();) {
    Poly q;
    while (it->second > 0 && f.num.size() >= factors()[it->first].size() && pdivexact(f.num, factors()[it->first], q)) { f.num = q; --it->second; }
    if (it->second == 0) it = f.den.erase(it); else ++it;
  }
}
static Frac reduce(const Poly& p) {
  // highest algebraic variable with exponent >= 2
  uint32_t best = 0; bool found = false;
  for (auto& t : p) for (auto& x : t.first) if (x.second >= 2 && hasRelation(x.first) && (!found || x.first > best)) { best = x.first; found = true; }
  if (!found) { Frac f; f.num = p; return f; }
  std::map<uint32_t, Poly> byHalf;  // exponent/2 -> rest (with r^(e%2))
  for (auto& t : p) {
    Mono m; uint32_t h = 0;
    for (auto& x : t.first) if (x.first == best) { h = x.second / 2; if (x.second % 2) m.push_back({best, 1}); } else m.push_back(x);
    addTo(byHalf[h], m, t.second);
  }
  Frac X = relation(best), pw = fconst(1), res; 
  uint32_t cur = 0;
  for (auto& h : byHalf) {
    while (cur < h.first) { pw = fmul(pw, X); ++cur; }
    Frac c = reduce(h.second);
    res = addRaw(res, h.first ? fmul(c, pw) : c, 1);
  }
  return res;
}
Frac fconst(const Q& q) { Frac f; f.num = pconst(q); return f; }
Frac fvar(uint32_t v) { Frac f; f.num = pvar(v); return f; }
static Frac addRaw(const Frac& a, const Frac& b, int sign) {
  if (a.num.empty()) { Frac r = b; if (sign < 0) r.num = pscale(r.num, -1); return r; }
  if (b.num.empty()) return a;
  Frac r;
  if (a.den == b.den) { r.num = padd(a.num, b.num, sign); r.den = a.den; if (r.num.empty()) r.den.clear(); return r; }
  std::map<int, int> L = a.den;
  for (auto& x : b.den) { int& e = L[x.first]; if (x.second > e) e = x.second; }
  Poly na = a.num, nb = b.num;
  Frac fa, fb; fa.num = na; fb.num = nb;
  for (auto& x : L) {
    int ea = a.den.count(x.first) ? a.den.at(x.first) : 0, eb = b.den.count(x.first) ? b.den.at(x.first) : 0;
    for (int k = 0; k < x.second - ea; ++k) { Frac t = mulReduce(fa.num, factors()[x.first]); t.den.insert(fa.den.begin(), fa.den.end()); fa = t; }
    for (int k = 0; k < x.second - eb; ++k) { Frac t = mulReduce(fb.num, factors()[x.first]); t.den.insert(fb.den.begin(), fb.den.end()); fb = t; }
  }
  // reduction may itself have introduced denominators (relations with denominators): recurse on those
  if (fa.den.empty() && fb.den.empty()) { r.num = padd(fa.num, fb.num, sign); }
  else { r = addRaw(fa, fb, sign); }
  for (auto& x : L) r.den[x.first] += x.second;
  if (r.num.empty()) r.den.clear();
  return r;
}
Frac fadd(const Frac& a, const Frac& b, int sign) { Frac r = addRaw(a, b, sign); cancel(r); return r; }
Frac fmul(const Frac& a, const Frac& b) {
  if (a.num.empty() || b.num.empty()) return Frac();
  // cross-cancel cheap case: a.num equals a factor of b.den
  Frac r = mulReduce(a.num, b.num);
  for (auto& x : a.den) r.den[x.first] += x.second;
  for (auto& x : b.den) r.den[x.first] += x.second;
  if (!r.den.empty()) cancel(r);
  return r;
}
Frac fdiv(const Frac& a, const Frac& b) {
  if (b.num.empty()) throw std::runtime_error("symbolic division by zero polynomial");
  Frac inv; inv.num = pconst(1);
  for (auto& x : b.den) for (int k = 0; k < x.second; ++k) { Frac t = mulReduce(inv.num, factors()[x.first]); for (auto& y : inv.den) t.den[y.first] += y.second; inv = t; }
  if (isConst(b.num)) { inv.num = pscale(inv.num, 1 / constTerm(b.num)); return fmul(a, inv); }
  if (b.num.size() == 1) {
    auto& t = *b.num.begin();
    inv.num = pscale(inv.num, 1 / t.second);
    for (auto& x : t.first) inv.den[factorId(pvar(x.first))] += x.second;
  } else {
    Q lc = b.num.rbegin()->second;
    inv.num = pscale(inv.num, 1 / lc);
    inv.den[factorId(pscale(b.num, 1 / lc))] += 1;
  }
  cancel(inv);
  return fmul(a, inv);
}
Poly reducedProduct(const Poly& num, const std::map<int, int>& den, bool odd) {
  Frac r; r.num = num;
  for (auto& x : den) {
    int e = odd ? x.second % 2 : x.second;
    for (int k = 0; k < e; ++k) { Frac t = mulReduce(r.num, factors()[x.first]); for (auto& y : r.den) t.den[y.first] += y.second; r = t; }
  }
  if (!r.den.empty()) return reducedProduct(r.num, r.den, odd);
  return r.num;
}
bool isConstF(const Frac& f, Q& q) { if (f.num.empty()) { q = 0; return true; } if (!f.den.empty() || !isConst(f.num)) return false; q = constTerm(f.num); return true; }
static void psplit(const Poly& p, Poly& p0, Poly& p1) {
  for (auto& t : p) {
    if (!t.first.empty() && t.first[0].first == EPS) { Mono m(t.first.begin() + 1, t.first.end()); p1[m] = t.second; }
    else p0[t.first] = t.second;
  }
}
void splitEps(const Frac& f, Frac& f0, Frac& f1) {
  Poly n0, n1; psplit(f.num, n0, n1);
  bool dense = false;
  for (auto& x : f.den) { for (auto& t : factors()[x.first]) if (!t.first.empty() && t.first[0].first == EPS) dense = true; }
  if (!dense) { f0.num = n0; f0.den = f.den; f1.num = n1; f1.den = f.den; if (n0.empty()) f0.den.clear(); if (n1.empty()) f1.den.clear(); cancel(f0); cancel(f1); return; }
  // general: f = (n0 + e n1) / prod (g0 + e g1)^k  ->  f0 = n0/prod g0^k ; f1 = n1/prod g0^k - f0 * sum k g1/g0
  Frac a, b, s; a.num = n0; b.num = n1;
  for (auto& x : f.den) {
    Poly g0, g1; psplit(factors()[x.first], g0, g1);
    Frac G0; G0.num = g0; Frac G1; G1.num = g1;
    for (int k = 0; k < x.second; ++k) { a = fdiv(a, G0); b = fdiv(b, G0); }
    if (!g1.empty()) { Frac t = fdiv(G1, G0); t.num = pscale(t.num, x.second); s = fadd(s, t, 1); }
  }
  f0 = a; f1 = fadd(b, fmul(a, s), -1);
}
}  // namespace poly
