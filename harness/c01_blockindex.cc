// C01: BlockIndex interval arithmetic, on symbolic interval bounds.
#include <hpp/constraints/matrix-view.hh>
#include "sym.hh"
using Eigen::BlockIndex;
typedef BlockIndex::segment_t seg;
typedef BlockIndex::segments_t segs;
static long M() { return sym::thorough() ? 200 : 40; }
static seg mkseg(const char* n, long minLen) {
  return seg(sym::integer(std::string(n) + "f", 0, M()), sym::integer(std::string(n) + "l", minLen, M()));
}
// arbitrary list of n segments
static segs any(const char* n, int k, long minLen = 0) {
  segs s;
  for (int i = 0; i < k; ++i) s.push_back(mkseg((std::string(n) + std::to_string(i)).c_str(), minLen));
  return s;
}
// normalised list (sorted, disjoint, non adjacent, non empty)
static segs normal(const char* n, int k) {
  segs s = any(n, k, 1);
  for (int i = 0; i + 1 < k; ++i) sym::assume(s[i].first + s[i].second < s[i + 1].first);
  return s;
}
// sorted and disjoint, possibly adjacent
static segs sorted(const char* n, int k) {
  segs s = any(n, k, 1);
  for (int i = 0; i + 1 < k; ++i) sym::assume(s[i].first + s[i].second <= s[i + 1].first);
  return s;
}
static bool in(const seg& s, long x) { return s.first <= x && x < s.first + s.second; }
static bool in(const segs& s, long x) {
  for (auto& e : s) if (in(e, x)) return true;
  return false;
}
static long point() { return sym::integer("x", 0, 3 * M()); }
static void checkNormal(const segs& s, const char* l) {
  for (size_t i = 0; i < s.size(); ++i) {
    sym::check(s[i].second > 0, std::string(l) + ": non empty interval");
    if (i + 1 < s.size()) sym::check(s[i].first + s[i].second < s[i + 1].first, std::string(l) + ": sorted, disjoint, not adjacent");
  }
}
static void checkSortedDisjoint(const segs& s, const char* l) {
  for (size_t i = 0; i < s.size(); ++i) {
    sym::check(s[i].second > 0, std::string(l) + ": non empty interval");
    if (i + 1 < s.size()) sym::check(s[i].first + s[i].second <= s[i + 1].first, std::string(l) + ": sorted and disjoint");
  }
}
static long sumLen(const segs& s) { long c = 0; for (auto& e : s) c = c + e.second; return c; }
// k-th index of the sequence denoted by the list
static long nth(const segs& s, long k) {
  for (auto& e : s) { if (k < e.second) return e.first + k; k = k - e.second; }
  return -1;
}

static void normalise(int k) {
  segs a = any("a", k, 1), b = a;
  BlockIndex::sort(b);
  for (size_t i = 0; i + 1 < b.size(); ++i)
    sym::check(b[i].first < b[i + 1].first || (b[i].first == b[i + 1].first && b[i].second <= b[i + 1].second), "sort orders by first index then length");
  BlockIndex::shrink(b);
  checkNormal(b, "sort+shrink");
  long x = point();
  sym::check(in(a, x) == in(b, x), "sort+shrink keeps the set of indices");
}
SCENARIO(normalise2) { normalise(2); }
SCENARIO(normalise3) { normalise(3); }
SCENARIO_THOROUGH(normalise4) { normalise(4); }
SCENARIO(normalise_small) { normalise((int)sym::choose("n", 2)); }

SCENARIO(cardinal) {
  int k = sym::choose("n", 4);
  segs a = any("a", k);
  sym::check(BlockIndex::cardinal(a) == sumLen(a), "cardinal is the number of indices");
}
SCENARIO(overlap) {
  seg a = mkseg("a", 0), b = mkseg("b", 0);
  bool o = BlockIndex::overlap(a, b);
  bool ref = a.second > 0 && b.second > 0 && a.first < b.first + b.second && b.first < a.first + a.second;
  sym::check(o == ref, "overlap iff the intervals share an index");
  sym::check(o == BlockIndex::overlap(b, a), "overlap is symmetric");
}
SCENARIO(sum2) {
  seg a = mkseg("a", 1), b = mkseg("b", 1);
  segs s = BlockIndex::sum(a, b);
  checkNormal(s, "sum");
  long x = point();
  sym::check(in(s, x) == (in(a, x) || in(b, x)), "sum is the union");
}
static void add1(int k) {
  segs a = any("a", k, 1);
  BlockIndex::sort(a);
  seg b = mkseg("b", 1);
  segs r = a;
  BlockIndex::add(r, b);
  long x = point();
  sym::check(in(r, x) == (in(a, x) || in(b, x)), "adding an interval gives the union");
  for (size_t i = 0; i + 1 < r.size(); ++i) sym::check(r[i].first <= r[i + 1].first, "adding an interval keeps the list sorted");
  BlockIndex::shrink(r);
  checkNormal(r, "add+shrink");
  sym::check(in(r, x) == (in(a, x) || in(b, x)), "add+shrink gives the union");
}
SCENARIO(add_one) { add1(sym::choose("n", 3)); }
SCENARIO_THOROUGH(add_one3) { add1(3); }
static void addN(int k, int m) {
  segs a = normal("a", k), b = normal("b", m), r = a;
  BlockIndex::add(r, b);
  long x = point();
  sym::check(in(r, x) == (in(a, x) || in(b, x)), "adding a list gives the union");
  for (size_t i = 0; i + 1 < r.size(); ++i) sym::check(r[i].first <= r[i + 1].first, "adding a list keeps the list sorted");
  BlockIndex::shrink(r);
  checkNormal(r, "add list+shrink");
  sym::check(in(r, x) == (in(a, x) || in(b, x)), "add list+shrink gives the union");
}
SCENARIO(add_list) { int k = sym::choose("n", 3); addN(k, sym::choose("m", 3)); }
SCENARIO_THOROUGH(add_list3) { addN(2, 3); }

SCENARIO(difference_seg_seg) {
  seg a = mkseg("a", 0), b = mkseg("b", 0);
  segs d = BlockIndex::difference(a, b);
  long x = point();
  sym::check(in(d, x) == (in(a, x) && !in(b, x)), "difference of two intervals");
  checkSortedDisjoint(d, "difference of two intervals");
}
SCENARIO(difference_segs_seg) {
  segs a = sorted("a", sym::choose("n", 4));
  seg b = mkseg("b", 0);
  segs d = BlockIndex::difference(a, b);
  long x = point();
  sym::check(in(d, x) == (in(a, x) && !in(b, x)), "difference of a list and an interval");
  checkSortedDisjoint(d, "difference of a list and an interval");
}
SCENARIO(difference_seg_segs) {
  seg a = mkseg("a", 1);
  segs b = sorted("b", sym::choose("n", 4));
  segs d = BlockIndex::difference(a, b);
  long x = point();
  sym::check(in(d, x) == (in(a, x) && !in(b, x)), "difference of an interval and a list");
  checkSortedDisjoint(d, "difference of an interval and a list");
}
static void diffLL(int k, int m) {
  segs a = sorted("a", k), b = sorted("b", m);
  segs d = BlockIndex::difference(a, b);
  long x = point();
  sym::check(in(d, x) == (in(a, x) && !in(b, x)), "difference of two lists");
  checkSortedDisjoint(d, "difference of two lists");
}
SCENARIO(difference_lists) { int k = sym::choose("n", 3); diffLL(k, sym::choose("m", 3)); }
SCENARIO_THOROUGH(difference_lists3) { diffLL(3, 2); }
SCENARIO_THOROUGH(difference_lists33) { diffLL(2, 3); }

SCENARIO(mask_round_trip) {
  // all masks of length n: segments of true entries, in order, and back
  int n = sym::choose("n", 6);
  typedef Eigen::Array<bool, Eigen::Dynamic, 1> BA;
  BA m(n);
  for (int i = 0; i < n; ++i) m[i] = sym::flag("m" + std::to_string(i));
  segs s = BlockIndex::fromLogicalExpression(m);
  checkNormal(s, "mask to intervals");
  long c = 0;
  for (int i = 0; i < n; ++i) { c += m[i]; sym::check(in(s, i) == m[i], "mask to intervals selects the true entries"); }
  long x = sym::integer("x", -5, 20);
  if (x < 0 || x >= n) sym::check(!in(s, x), "mask to intervals selects nothing else");
  sym::check(BlockIndex::cardinal(s) == c, "mask to intervals: cardinal");
}
static void splitK(int k) {
  segs a = any("a", k, 1), orig = a;
  long c = sym::integer("c", 0, 3 * M());
  sym::assume(c <= sumLen(a));
  segs first = BlockIndex::split(a, c);
  sym::check(sumLen(first) == c, "split: first part has the requested cardinal");
  sym::check(sumLen(a) == sumLen(orig) - c, "split: second part has the remaining cardinal");
  long i = sym::integer("i", 0, 3 * M());
  sym::assume(i < sumLen(orig));
  long v = i < c ? nth(first, i) : nth(a, i - c);
  sym::check(v == nth(orig, i), "split keeps the index sequence");
  for (auto& e : a) sym::check(e.second > 0, "split: second part has no empty interval");
}
SCENARIO(split) { splitK(1 + sym::choose("n", 2)); }
SCENARIO(split3) { splitK(3); }
static void extractK(int k) {
  segs a = any("a", k, 1);
  long st = sym::integer("st", 0, 3 * M()), c = sym::integer("c", 0, 3 * M());
  sym::assume(st + c <= sumLen(a));
  segs r = BlockIndex::extract(a, st, c);
  sym::check(sumLen(r) == c, "extract: requested cardinal");
  if (c == 0) return;
  long i = sym::integer("i", 0, 3 * M());
  sym::assume(i < c);
  sym::check(nth(r, i) == nth(a, st + i), "extract returns the sub-sequence");
}
SCENARIO(extract) { extractK(sym::choose("n", 3)); }
SCENARIO(extract3) { extractK(3); }
SCENARIO(blocks_object) {
  // the incremental container keeps the same sets
  Eigen::RowBlockIndices r;
  segs a = any("a", 3, 1);
  int n = sym::choose("n", 4);
  for (int i = 0; i < n; ++i) r.addRow(a[i].first, a[i].second);
  r.updateRows<true, true, true>();
  segs used(a.begin(), a.begin() + n);
  long x = point();
  sym::check(in(r.rows(), x) == in(used, x), "adding rows then normalising gives the union");
  checkNormal(r.rows(), "container");
  sym::check(r.nbRows() == sumLen(r.rows()), "container: number of rows");
}
