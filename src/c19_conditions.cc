// C19 timed conditions denote exact sets; C20 partition into simple conditions and back; C21 elementary languages
#include <list>
#include "mc.hh"
#include "conds.hh"
#include "timed_condition_set.hh"
#include "elementary_language.hh"
#include "conv.hh"
using namespace learnta; using mc::Case; using mc::u64; using dbm::D; using rs::Set; using rs::Space;

static const char *ops(int u) { return u & 1 ? "<=" : "<"; }
struct Univ { int n, M; std::vector<D> ds; std::vector<Set> sets; std::vector<TimedCondition> tc;
  Univ(std::vector<D> v, int M_) : n(v[0].n), M(M_), ds(std::move(v)) { const Space &sp = tc::space(n, M); for (auto &d : ds) { Set s = d.set(sp); sets.push_back(s); tc.push_back(tc::make(d)); } } };
// the set denoted by the bounds reported by a condition
static Set denoted(const TimedCondition &t, const Space &sp) { D d = tc::read(t); return d.set(sp); }
static std::string diff(const Space &sp, const Set &got, const Set &want, const Set *win = nullptr) {
  Set a = rs::minus(got, want), b = rs::minus(want, got); if (win) { a = rs::both(a, *win); b = rs::both(b, *win); }
  int x = rs::first(a), y = rs::first(b); if (x >= 0) return "contains " + sp.show(x); if (y >= 0) return "misses " + sp.show(y); return "";
}
// the reported bounds denote the set and are the tightest ones
static bool same(const TimedCondition &t, const D &want, const Space &sp, Case &c, const std::string &what, bool tight = true) {
  if ((int) t.size() != want.n) { c.fail(what + ": has " + std::to_string(t.size()) + " variables, expected " + std::to_string(want.n)); return false; }
  D g = tc::read(t); c.traces();
  if (g.m == want.m) return true;
  std::string w = diff(sp, g.set(sp), want.set(sp));
  if (!w.empty()) { c.fail(what + ": " + w + " (values of T_{i,N}); got " + tc::show(g) + ", expected " + tc::show(want)); return false; }
  if (tight) { D h = g; h.close(); if (h.m != g.m) { c.fail(what + ": bounds are not tight: " + tc::show(g)); return false; } if (h.m != want.m) { c.fail(what + ": got " + tc::show(g) + ", expected " + tc::show(want)); return false; } }
  return true;
}
static D hull(const D &a, const D &b) { D r(a.n); for (size_t i = 0; i < r.m.size(); ++i) r.m[i] = std::max(a.m[i], b.m[i]); return r; }
static D meet(const D &a, const D &b) { D r(a.n); for (size_t i = 0; i < r.m.size(); ++i) r.m[i] = std::min(a.m[i], b.m[i]); return r; }
// variables x_0 .. from the D over other variables: row/column map (0 = constant)
static D remap(const D &a, const std::vector<int> &src) { D r((int) src.size()); auto f = [&](int i) { return i ? src[i - 1] + 1 : 0; }; for (int i = 0; i <= r.n; ++i) for (int j = 0; j <= r.n; ++j) if (i != j) { int x = f(i), y = f(j); r.at(i, j) = x == y ? 1 : a.at(x, y); } return r; }

static void one(const D &d, int M, Case &c) {
  int n = d.n; c.key("condition " + tc::show(d)); const Space &sp = tc::space(n, M); Set s = d.set(sp); TimedCondition t = tc::make(d); c.states(); c.nontrivial();
  if (!same(t, d, sp, c, "restricting bounds")) return;
  if (!t.isSatisfiableNoCanonize() || !static_cast<bool>(t)) return c.fail("reported unsatisfiable");
  int cnt = 0; for (size_t k = 0; k < sp.size(); ++k) cnt += rs::get(s, k);
  bool unb = false; for (int i = 1; i <= n; ++i) unb |= d.at(i, 0) >= dbm::INF;
  if (!unb && d.at(1, 0) > 2 * M + 1) cnt = 2;                 // reaches beyond the window, so it is no single region of it
  if (t.isSimple() != (!unb && cnt == 1)) return c.fail("isSimple is " + std::to_string(t.isSimple()) + " for a set of " + std::to_string(cnt) + " regions");
  auto at = [&](int i, int j, bool up) { return up ? d.at(i + 1, tc::lo(n, j)) : d.at(tc::lo(n, j), i + 1); };
  // structure
  { std::vector<int> m; for (int i = 0; i < n; ++i) m.push_back(i); auto z = m; z.push_back(-1);
    c.transitions(4);
    if (!same(t.extendN(), remap(d, z), tc::space(n + 1, n + 1 < 4 ? M : 2), c, "extendN")) return;
    auto e = m; e.insert(e.begin(), 0); if (!same(t.extendZero(), remap(d, e), tc::space(n + 1, n + 1 < 4 ? M : 2), c, "extendZero")) return;
    if (n > 1) { auto p = m; p.pop_back(); if (!same(t.removeN(), remap(d, p), tc::space(n - 1, M), c, "removeN")) return; }
    D up = d; for (int i = 1; i <= n; ++i) up.at(i, 0) = dbm::INF; TimedCondition u = t; u.removeUpperBoundAssign(); if (!same(u, up, sp, c, "removing upper bounds")) return;
    D eq = d; for (int i = 1; i <= n; ++i) if (eq.at(i, 0) < dbm::INF && eq.at(i, 0) & 1) eq.at(i, 0) = dbm::INF; TimedCondition q = t; q.removeEqualityUpperBoundAssign(); if (!same(q, eq, sp, c, "removing equality upper bounds", false)) return; { auto ts = TimedConditionSet::bottom(); ts.push_back(t); ts.push_back(t); ts.push_back(u); ts.removeEqualityUpperBoundAssign(); TimedCondition uq = u; uq.removeEqualityUpperBoundAssign(); const auto &v = ts.getConditions(); if (v.size() != 3 || !(v[0] == q) || !(v[1] == q) || !(v[2] == uq)) return c.fail("removing equality upper bounds of a set differs from doing so for each member"); }
    if (!(tc::read(t).m == d.m)) return c.fail("an operation changed its operand"); }
  // points, prefixes, suffixes, equalities, guards
  for (int i = 0; i < n; ++i) { bool pt = at(i, n - 1, true) < dbm::INF && (at(i, n - 1, true) & 1) && at(i, n - 1, false) == 2 - at(i, n - 1, true); if (t.isPoint(i) != pt) return c.fail("isPoint(" + std::to_string(i) + ") is " + std::to_string(!pt)); }
  auto zero = [&](int i, int j) { return at(i, j, true) == 1; };
  if (t.hasPrefix() == zero(n - 1, n - 1)) return c.fail("hasPrefix is wrong");
  if (t.hasSuffix() == zero(0, 0)) return c.fail("hasSuffix is wrong");
  if (cnt == 1 && !unb) { bool any = false; for (int i = 0; i < n; ++i) any |= at(i, n - 1, true) & 1; if (t.hasEqualityN() != any) return c.fail("hasEqualityN is " + std::to_string(!any)); }
  { auto g = t.toGuard(); c.transitions(); D box = tc::base(n); for (int i = 1; i <= n; ++i) for (int j = 1; j <= n; ++j) if (i != j) box.at(i, j) = dbm::INF; for (int i = 1; i <= n; ++i) { box.at(i, 0) = d.at(i, 0); box.at(0, i) = d.at(0, i); }
    for (size_t k = 0; k < sp.size(); ++k) { bool want = box.has(sp.pts[k], sp.Q), got = true; auto v = tc::real(sp.pts[k], sp.Q); for (auto &q : g) { if (q.x >= n) return c.fail("toGuard constrains a clock that does not exist"); got = got && q.satisfy(v[q.x]); } if (want != got) return c.fail("toGuard is wrong at " + sp.show(k)); } c.traces(sp.size()); }
  // all assignments of constants
  { const double cs[] = {-1, 0, 1, 2, 0.5}; int m = 1; for (int i = 0; i < n; ++i) m *= 5;
    for (int a = 1; a < m; ++a) for (int ord = 0; ord < 2; ++ord) {
      TATransition::Resets r; D e = d; int q = a; std::string nm;
      for (int i = 0; i < n; ++i, q /= 5) { double v = cs[q % 5]; if (v < 0) continue; r.emplace_back(ClockVariables(i), v); nm += " x" + std::to_string(i) + ":=" + std::to_string(v).substr(0, 3); int f = (int) std::floor(v) * 2, g = (int) std::ceil(v) * 2; for (int j = 0; j <= n; ++j) if (j != i + 1) e.at(i + 1, j) = e.at(j, i + 1) = dbm::INF; e.at(i + 1, 0) = v == std::floor(v) ? g + 1 : g; e.at(0, i + 1) = v == std::floor(v) ? -f + 1 : -f; }
      if (r.empty()) continue; if (ord) { if (r.size() < 2) continue; std::reverse(r.begin(), r.end()); }
      c.transitions(); e.close(); if (!same(t.applyResets(r), e, sp, c, "assigning" + nm)) return;
    } }
}
// exact image under simultaneous assignments into a space of k clocks
static void image(const D &d, int M, int k, Case &c) {
  int n = d.n; c.key("image of " + tc::show(d) + " into " + std::to_string(k) + " clocks"); const Space &sp = tc::space(n, M), &tp = tc::space(k, M); Set s = d.set(sp); TimedCondition t = tc::make(d); c.states();
  static const double cs[] = {0, 1, 0.5, 1.5}; int opt = 4 + n; u64 tot = 1; for (int i = 0; i < k; ++i) tot *= opt + 1;
  for (u64 a = 0; a < tot; ++a) {
    TATransition::Resets r; std::vector<int> src(k, -1); std::vector<double> con(k, 0); u64 q = a; bool bad = false; std::string nm;
    for (int i = 0; i < k; ++i) {
      int o = q % (opt + 1); q /= opt + 1; nm += " x" + std::to_string(i);
      if (o == opt) { if (i >= n) { bad = true; break; } src[i] = i; nm += " kept"; continue; }
      if (o < 4) { con[i] = cs[o]; r.emplace_back(ClockVariables(i), cs[o]); nm += ":=" + std::to_string(cs[o]).substr(0, 3); } else { src[i] = o - 4; r.emplace_back(ClockVariables(i), ClockVariables(o - 4)); nm += ":=x" + std::to_string(o - 4); }
    }
    if (bad) continue; c.transitions(); if (a & 1) std::reverse(r.begin(), r.end());
    // clocks beyond the target space are ignored
    if (a % 3 == 0) r.emplace_back(ClockVariables(k), 1.0);
    std::vector<int> cp; for (int i = 0; i < k; ++i) if (src[i] >= 0) cp.push_back(i);
    std::map<rs::Pt, int> P; if (!cp.empty()) { for (size_t j = 0; j < sp.size(); ++j) if (rs::get(s, j)) { std::vector<long long> l; for (int i : cp) l.push_back(sp.pts[j][src[i]]); P[rs::canon(l, sp.Q, sp.Q)] = 1; } }
    auto in = [](int v, int Q, double lo) { return lo == std::floor(lo) ? v == lo * Q : v > std::floor(lo) * Q && v < std::ceil(lo) * Q; };
    Set want = tp.filter([&](const rs::Pt &p) {
      for (int i = 0; i < k; ++i) if (src[i] < 0) { if (!in(p[i], tp.Q, con[i])) return false; for (int j = 0; j < i; ++j) if (src[j] < 0 && !in(p[j] - p[i], tp.Q, con[j] - con[i])) return false; }
      if (!cp.empty()) { std::vector<long long> l; for (int i : cp) l.push_back(p[i]); if (!P.count(rs::canon(l, tp.Q, sp.Q))) return false; }
      return true; });
    TimedCondition g = t.applyResets(r, k); if ((int) g.size() != k) return c.fail(nm + ": wrong number of variables");
    std::string w = diff(tp, denoted(g, tp), want); c.traces(); if (!w.empty()) return c.fail("assigning" + nm + ": " + w + "; got " + tc::show(tc::read(g)));
    c.nontrivial();
  }
}
static void points(int n, int M, u64 idx, Case &c) {
  const Space &sp = tc::space(n, M); const rs::Pt &p = sp.pts[idx]; if (!tc::mono(p)) return; auto v = tc::real(p, sp.Q); c.key("point " + sp.show(idx)); c.states(); c.nontrivial();
  Set one = sp.none(); rs::put(one, idx); TimedCondition t(v); std::string w = diff(sp, denoted(t, sp), one); if (!w.empty()) return c.fail("the simple condition of the point " + w);
  if (!t.isSimple() || t.size() != (size_t) n) return c.fail("the simple condition of a point is not simple");
  TimedCondition e = TimedCondition::makeExact(v); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { double x = v[i] - (j + 1 < n ? v[j + 1] : 0); if (e.getUpperBound(i, j) != Bounds{x, true} || e.getLowerBound(i, j) != Bounds{-x, true}) return c.fail("the exact condition of a point has other bounds"); }
  if (!t.includes(e) || (e.includes(t) != (p == std::vector<int>(p) && [&] { for (int x : p) if (x % sp.Q) return false; return true; }()))) return c.fail("inclusion between the exact and the simple condition of a point is wrong");
  for (size_t k = 0; k < sp.size(); ++k) if (tc::mono(sp.pts[k])) { TimedCondition o(tc::real(sp.pts[k], sp.Q)); c.transitions(); if ((o == t) != (k == idx) || (o != t) != (k != idx)) return c.fail("equality with the simple condition of " + sp.show(k)); TimedCondition x = o && t; if (static_cast<bool>(x) != (k == idx)) return c.fail("intersection with the simple condition of " + sp.show(k)); } c.traces(sp.size());
}
static void pairs(const Univ &u, size_t i, Case &c) {
  c.key("pairs [" + tc::show(u.ds[i]) + "]"); const Space &sp = tc::space(u.n, u.M); c.states(); c.nontrivial(); const auto &a = u.tc[i];
  for (size_t j = 0; j < u.ds.size(); ++j) {
    const auto &b = u.tc[j]; c.transitions(5); c.traces(5); bool in = true; for (size_t q = 0; q < u.ds[i].m.size(); ++q) in &= u.ds[j].m[q] <= u.ds[i].m[q];
    std::string nm = " with [" + tc::show(u.ds[j]) + "]";
    if (a.includes(b) != in) return c.fail("inclusion is wrong" + nm);
    if ((a == b) != (i == j) || (a != b) != (i != j)) return c.fail("equality is wrong" + nm);
    if (i == j && hash_value(a) != hash_value(b)) return c.fail("hash differs for equal conditions");
    D h = hull(u.ds[i], u.ds[j]); TimedCondition q = a.convexHull(b); if (!same(q, h, sp, c, "convex hull" + nm)) return; TimedCondition q2 = a; q2.convexHullAssign(b); if (!(q2 == q)) return c.fail("convexHullAssign differs" + nm);
    D m = meet(u.ds[i], u.ds[j]); bool sat = m.close(); TimedCondition x = a && b; if (static_cast<bool>(x) != sat) return c.fail("emptiness of the intersection is wrong" + nm); if (sat && !same(x, m, sp, c, "intersection" + nm)) return;
    for (int k = 0; k <= u.n; ++k) { auto sv = a.getStrictlyConstrainedVariables(b, k); std::vector<size_t> want; for (int v = 1; v <= k; ++v) { bool df = false; for (int w = 0; w <= u.n; ++w) df |= u.ds[i].at(v, w) != u.ds[j].at(v, w) || u.ds[i].at(w, v) != u.ds[j].at(w, v); if (df) want.push_back(v - 1); } if (sv != want) return c.fail("strictly constrained variables are wrong" + nm); }
  }
}
// concatenation: the words u.v with u in a, v in b; by splitting every region of the result at every possible instant
static bool hasHalf(const D &d, const std::vector<int> &x, int U) { for (int i = 0; i <= d.n; ++i) for (int j = 0; j <= d.n; ++j) { int b = d.at(i, j); if (b >= dbm::INF) continue; int v = (i ? x[i - 1] : 0) - (j ? x[j - 1] : 0), k = (b >> 1) * U; if (b & 1 ? v > k : v >= k) return false; } return true; }
static void concat(const Univ &ua, size_t i, const Univ &ub, int M, Case &c, size_t step, size_t off) {
  int n = ua.n, m = ub.n, N = n + m - 1; c.key("concatenations of [" + tc::show(ua.ds[i]) + "]"); const Space &sp = tc::space(N, M); c.states(); c.nontrivial(); const D &a = ua.ds[i];
  for (size_t j = off; j < ub.ds.size(); j += step) {
    const D &b = ub.ds[j]; TimedCondition t = ua.tc[i] + ub.tc[j]; c.transitions(); if ((int) t.size() != N) return c.fail("concatenation has a wrong number of variables");
    D g = tc::read(t); int U = 2 * sp.Q;
    for (size_t k = 0; k < sp.size(); ++k) {
      const auto &p = sp.pts[k]; if (!tc::mono(p)) continue; bool got = g.has(p, sp.Q), want = false;
      // cut inside duration n-1: x_n <= cut position (remaining time) <= x_{n-1}
      int hi = 2 * p[n - 1], l = n < N ? 2 * p[n] : 0;
      for (int r = l; r <= hi && !want; ++r) { std::vector<int> x, y; for (int q = 0; q < n; ++q) x.push_back(2 * p[q] - r); y.push_back(r); for (int q = n; q < N; ++q) y.push_back(2 * p[q]); want = hasHalf(a, x, U) && hasHalf(b, y, U); }
      c.traces(); if (got != want) return c.fail("concatenation with [" + tc::show(b) + "] " + (got ? "contains " : "misses ") + sp.show(k));
    }
    D h = g; if (!h.close() || h.m != g.m) return c.fail("concatenation with [" + tc::show(b) + "] is not in tight form");
  }
}
// ----- C20
static void part(const D &d, int M, Case &c) {
  c.key("enumerate [" + tc::show(d) + "]"); const Space &sp = tc::space(d.n, M); TimedCondition t = tc::make(d); Set s = d.set(sp), u = sp.none(); c.states(); auto v = t.enumerate(); std::vector<TimedCondition> v2; t.enumerate(v2); if (v.size() > 1) c.nontrivial();
  if (v != v2) return c.fail("the two forms of enumerate differ");
  for (auto &x : v) {
    c.transitions(); Set q = denoted(x, sp); int cnt = 0; for (auto w : q) cnt += __builtin_popcountll(w); if (!x.isSimple()) return c.fail("an enumerated condition is not simple: " + tc::show(tc::read(x)));
    if (cnt != 1) return c.fail("an enumerated condition is not a single region: " + tc::show(tc::read(x))); if (!rs::empty(rs::both(u, q))) return c.fail("a region is enumerated twice: " + sp.show(rs::first(q)));
    for (size_t w = 0; w < u.size(); ++w) u[w] |= q[w];
    if (!(x == TimedCondition(tc::real(sp.pts[rs::first(q)], sp.Q)))) return c.fail("an enumerated condition is not in the canonical form of its region");
  }
  std::string w = diff(sp, u, s); c.traces(v.size()); if (!w.empty()) c.fail("the enumerated conditions together " + w);
  std::vector<ElementaryLanguage> es = ElementaryLanguage{std::string(d.n - 1, 'a'), t}.enumerate(); if (es.size() != v.size()) return c.fail("enumerating the elementary language gives another number of conditions");
  for (size_t k = 0; k < v.size(); ++k) if (es[k].getWord() != std::string(d.n - 1, 'a') || es[k].getTimedCondition() != v[k] || !es[k].isSimple()) return c.fail("enumerating the elementary language differs");
}
struct Simple { int n, K; std::vector<TimedCondition> tc; std::vector<int> at; Simple(int n_, int K_) : n(n_), K(K_) { const Space &sp = tc::space(n, K + 1); for (size_t k = 0; k < sp.size(); ++k) if (tc::mono(sp.pts[k]) && sp.pts[k][0] <= K * sp.Q) { tc.emplace_back(tc::real(sp.pts[k], sp.Q)); at.push_back((int) k); } } };
static void reduce(const Simple &S, const std::vector<int> &pick, Case &c) {
  const Space &sp = tc::space(S.n, S.K + 1); Set want = sp.none(); std::list<ElementaryLanguage> l; std::string w(S.n - 1, 'a'), nm; for (int k : pick) { l.emplace_back(w, S.tc[k]); rs::put(want, S.at[k]); nm += sp.show(S.at[k]); }
  c.key("reduce {" + nm + "}"); c.states(); auto r = TimedConditionSet::reduce(l); c.transitions(); if (pick.size() > r.size()) c.nontrivial();
  Set got = sp.none(); for (auto &x : r.getConditions()) { Set q = denoted(x, sp); if (rs::empty(q)) return c.fail("an empty condition in the result"); for (size_t i = 0; i < got.size(); ++i) { if (got[i] & q[i]) return c.fail("the conditions of the result overlap"); got[i] |= q[i]; } D g = tc::read(x), h = g; if (!h.close() || h.m != g.m) return c.fail("a condition of the result is not tight"); }
  std::string df = diff(sp, got, want); c.traces(); if (!df.empty()) return c.fail("the reduced set " + df);
  if (r.empty() != pick.empty() || r.size() != r.getConditions().size()) return c.fail("empty()/size() are wrong");
  // no two conditions of the result can be merged
  auto &cs = r.getConditions(); for (size_t i = 0; i < cs.size(); ++i) for (size_t j = i + 1; j < cs.size(); ++j) { D h = hull(tc::read(cs[i]), tc::read(cs[j])); Set q = h.set(sp), u = denoted(cs[i], sp), v = denoted(cs[j], sp); for (size_t k = 0; k < u.size(); ++k) u[k] |= v[k]; if (q == u) return c.fail("two conditions of the result have a convex union"); }
}
// ----- C21
static void elem(const D &d, int M, Case &c) {
  int n = d.n; c.key("elementary language [" + tc::show(d) + "]"); const Space &sp = tc::space(n, M); TimedCondition t = tc::make(d); std::string w = std::string("abab").substr(0, n - 1), o = w; ElementaryLanguage L{w, t}; c.states(); c.nontrivial();
  for (size_t k = 0; k < sp.size(); ++k) if (tc::mono(sp.pts[k])) { auto du = tc::durations(tc::real(sp.pts[k], sp.Q)); c.transitions(); bool in = d.has(sp.pts[k], sp.Q); if (L.contains(TimedWord{w, du}) != in) return c.fail(std::string("contains is ") + (in ? "false" : "true") + " for " + sp.show(k));
    if (n > 1) { std::string v = w; v[0] = 'c'; if (L.contains(TimedWord{v, du})) return c.fail("contains a word with other letters"); } auto d2 = du; d2.push_back(0); if (L.contains(TimedWord{w + "a", d2})) return c.fail("contains a longer word"); } c.traces(sp.size());
  bool unb = false; for (int i = 1; i <= n; ++i) unb |= d.at(i, 0) >= dbm::INF;
  if (!unb) {
    TimedWord s = L.sample(); c.transitions(); if (s.getWord() != w || s.getDurations().size() != (size_t) n) return c.fail("sample has other letters");
    std::vector<double> x(n); double a = 0; for (int i = n - 1; i >= 0; --i) { if (s.getDurations()[i] < 0) return c.fail("sample has a negative delay"); a += s.getDurations()[i]; x[i] = a; }
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) { int b = d.at(i, j); if (b >= dbm::INF) continue; double v = (i ? x[i - 1] : 0) - (j ? x[j - 1] : 0), k = b >> 1; if (b & 1 ? v > k : v >= k) { std::ostringstream os; os << s; return c.fail("sample " + os.str() + " is not in the language"); } }
    if (!L.contains(s)) return c.fail("sample is not contained");
    // fixing a prefix
    for (size_t k = 0; k < sp.size(); ++k) if (d.has(sp.pts[k], sp.Q) && tc::mono(sp.pts[k])) { auto du = tc::durations(tc::real(sp.pts[k], sp.Q));
      for (int p = 1; p < n; ++p) for (int part = 0; part < 2; ++part) {
        auto pd = std::vector<double>(du.begin(), du.begin() + p); pd.push_back(part ? du[p] : 0); ElementaryLanguage R = L.constrain(TimedWord{w.substr(0, p), pd}); c.transitions(); if (R.getWord() != w) return c.fail("constrain changes the letters");
        if (!R.contains(TimedWord{w, du})) return c.fail("constrain by a prefix of " + sp.show(k) + " loses the word");
        for (size_t z = k % 3; z < sp.size(); z += 3) if (tc::mono(sp.pts[z])) { auto dz = tc::durations(tc::real(sp.pts[z], sp.Q)); bool want = d.has(sp.pts[z], sp.Q); for (int q = 0; q < p; ++q) want = want && dz[q] == du[q]; if (R.contains(TimedWord{w, dz}) != want) return c.fail("constrain by a prefix of " + sp.show(k) + " is wrong at " + sp.show(z)); c.traces(); }
        if (sp.size() > 3000) break;
      } if (sp.size() > 600 && k % 7) continue; }
  }
  auto R = L.removeUpperBound(); auto R2 = L; R2.removeUpperBoundAssign(); TimedCondition u = t; u.removeUpperBoundAssign(); if (!(R.getTimedCondition() == u) || !(R2.getTimedCondition() == u) || R.getWord() != w) return c.fail("removing the upper bound differs from the timed condition's");
  auto R3 = L; R3.removeEqualityUpperBoundAssign(); TimedCondition u2 = t; u2.removeEqualityUpperBoundAssign(); if (!(R3.getTimedCondition() == u2)) return c.fail("removing equality upper bounds differs from the timed condition's");
  if (L.wordSize() != w.size() || L.isSimple() != t.isSimple()) return c.fail("wordSize or isSimple is wrong");
}
static void elemPairs(const Univ &u, size_t i, Case &c) {
  c.key("elementary pairs [" + tc::show(u.ds[i]) + "]"); std::string w(u.n - 1, 'a'); ElementaryLanguage a{w, u.tc[i]}; c.states();
  for (size_t j = 0; j < u.ds.size(); ++j) {
    ElementaryLanguage b{w, u.tc[j]}; c.transitions(); c.traces(); bool eq = i == j; if ((a == b) != eq || (a != b) != !eq) return c.fail("equality is wrong"); if (eq && hash_value(a) != hash_value(b)) return c.fail("hash is wrong");
    if (u.n > 1) { ElementaryLanguage o{std::string(u.n - 1, 'b'), u.tc[j]}; if (a == o) return c.fail("languages over different letters compare equal"); }
    ElementaryLanguage s = a + b; if (s.getWord() != w + w || !(s.getTimedCondition() == u.tc[i] + u.tc[j])) return c.fail("concatenation is wrong");
    size_t k = (i * 7 + j * 3) % u.ds.size(); ElementaryLanguage x{w, u.tc[k]}; auto h = ElementaryLanguage::convexHull({a, b, x}); if (h.getWord() != w || tc::read(h.getTimedCondition()).m != hull(hull(u.ds[i], u.ds[j]), u.ds[k]).m) return c.fail("convex hull is wrong"); c.nontrivial();
  }
}
static std::vector<D> bounded(std::vector<D> v) { std::vector<D> r; for (auto &d : v) { bool b = true; for (int i = 1; i <= d.n; ++i) b &= d.at(i, 0) < dbm::INF; if (b) r.push_back(d); } return r; }

void mc::Driver::setup(mc::Driver &d) {
  bool th = d.thorough();
  if (d.prop == "C19") {
    d.statesMean = "timed conditions"; d.transMean = "operations"; d.tracesMean = "results compared with the reference (region by region or bound by bound)";
    { static auto v = tc::all(1, 4, 9); d.add("one-1", v.size(), "all intervals of one variable, constants <= 4", [](u64 i, Case &c) { one(v[i], 6, c); }); }
    { static auto v = tc::all(2, 3, 9); d.add("one-2", v.size(), "all conditions over two variables, constants <= 3", [](u64 i, Case &c) { one(v[i], 7, c); }); }
    { static auto v = tc::all(3, 1, 9); d.add("one-3", v.size(), "all conditions over three variables any number of bounds, constants <= 1", [](u64 i, Case &c) { one(v[i], 3, c); }); }
    { static auto v = tc::all(3, 2, th ? 4 : 3); d.add("one-3-2", v.size(), "all conditions over three variables given by <= " + std::to_string(th ? 4 : 3) + " bounds, constants <= 2", [](u64 i, Case &c) { one(v[i], 3, c); }); }
    { static auto v = bounded(tc::all(1, 2, 9)); static u64 n = v.size(); d.add("image-1", n * 3, "images of all bounded intervals under all assignments into 1-3 clocks", [](u64 i, Case &c) { image(v[i / 3], 3, 1 + i % 3, c); }); }
    { static auto v = bounded(tc::all(2, 2, 9)); static u64 n = v.size(); d.add("image-2", n * 2, "images of all bounded conditions over two variables under all assignments into 1-2 clocks", [](u64 i, Case &c) { image(v[i / 2], 4, 1 + i % 2, c); }); }
    { static auto v = bounded(tc::all(2, 1, 9)); static u64 n = v.size(); d.add("image-23", n, "images of all bounded conditions over two variables (constants <= 1) under all assignments into 3 clocks", [](u64 i, Case &c) { image(v[i], 2, 3, c); }); }
    { static auto v = bounded(tc::all(3, 1, d.thorough() ? 3 : 1, true)); static u64 n = v.size(); d.add("image-3", n, "images of conditions over three variables given by <= 1 (thorough 3) bounds besides being at most 1, under all assignments into 3 clocks", [](u64 i, Case &c) { image(v[i], 2, 3, c); }, 300, 1); }
    { static const Space &s1 = tc::space(1, 6); d.add("points-1", s1.size(), "all regions of one variable <= 6", [](u64 i, Case &c) { points(1, 6, i, c); }); static const Space &s2 = tc::space(2, 4); d.add("points-2", s2.size(), "all regions of two variables <= 4", [](u64 i, Case &c) { points(2, 4, i, c); }); static const Space &s3 = tc::space(3, 2); d.add("points-3", s3.size(), "all regions of three variables <= 2", [](u64 i, Case &c) { points(3, 2, i, c); }); }
    { static Univ u(tc::all(1, 3, 9), 5); d.add("pairs-1", u.ds.size(), "all ordered pairs of intervals, constants <= 3: inclusion, equality, hull, intersection, constrained variables", [](u64 i, Case &c) { pairs(u, i, c); }); }
    { static Univ u(tc::all(2, 2, 9), 4); d.add("pairs-2", u.ds.size(), "all ordered pairs of conditions over two variables, constants <= 2", [](u64 i, Case &c) { pairs(u, i, c); }, 120, 2); }
    { static Univ u(tc::all(3, 1, d.thorough() ? 4 : 3), 3); d.add("pairs-3", u.ds.size(), "all ordered pairs of conditions over three variables given by <= 3 (thorough 4) bounds, constants <= 1", [](u64 i, Case &c) { pairs(u, i, c); }, 120, 2); }
    { static Univ u1(tc::all(1, 2, 9), 3), u2(tc::all(2, 1, 9), 3), u3(tc::all(3, 1, th ? 3 : 2), 3), u22(tc::all(2, 2, th ? 9 : 2), 4);
      d.add("concat-1-1", u1.ds.size(), "all concatenations of two intervals, constants <= 2", [](u64 i, Case &c) { concat(u1, i, u1, 6, c, 1, 0); });
      d.add("concat-1-2", u1.ds.size(), "all concatenations of an interval and a condition over two variables", [](u64 i, Case &c) { concat(u1, i, u2, 4, c, 1, 0); });
      d.add("concat-2-1", u2.ds.size(), "all concatenations of a condition over two variables and an interval", [](u64 i, Case &c) { concat(u2, i, u1, 4, c, 1, 0); });
      d.add("concat-2-2", u2.ds.size(), "all concatenations of two conditions over two variables, constants <= 1", [](u64 i, Case &c) { concat(u2, i, u2, 3, c, 1, 0); }, 120, 1);
      d.add("concat-3-1", u3.ds.size(), "concatenations of three-variable conditions and intervals", [](u64 i, Case &c) { concat(u3, i, u1, 3, c, 1, 0); }, 120, 1);
      d.add("concat-1-3", u1.ds.size(), "concatenations of intervals and three-variable conditions", [](u64 i, Case &c) { concat(u1, i, u3, 3, c, 1, 0); }, 120, 1);
      d.add("concat-22-2", u22.ds.size(), "concatenations of conditions over two variables with constants <= 2 (given by <= 2 bounds; thorough: all) and <= 1", [](u64 i, Case &c) { concat(u22, i, u2, 4, c, 1, 0); }, 120, 1); }
  } else if (d.prop == "C20") {
    d.statesMean = "conditions partitioned / sets reduced"; d.transMean = "simple conditions enumerated / reductions"; d.tracesMean = "regions compared";
    { static auto v = bounded(tc::all(1, 6, 9)); d.add("part-1", v.size(), "all bounded intervals, constants <= 6", [](u64 i, Case &c) { part(v[i], 7, c); }); }
    { static auto v = bounded(tc::all(2, 3, 9)); d.add("part-2", v.size(), "all bounded conditions over two variables, constants <= 3", [](u64 i, Case &c) { part(v[i], 6, c); }); }
    { static auto v = tc::all(3, 2, th ? 5 : 4, true); d.add("part-3", v.size(), "conditions over three variables at most 2, given by <= " + std::to_string(th ? 5 : 4) + " bounds", [](u64 i, Case &c) { part(v[i], 2, c); }, 120, 8); }
    { static auto v = tc::all(4, 1, th ? 9 : 5, true); d.add("part-4", v.size(), "conditions over four variables at most 1, given by <= " + std::to_string(th ? 9 : 5) + " bounds", [](u64 i, Case &c) { part(v[i], 1, c); }, 120, 8); }
    { static Simple S(1, th ? 7 : 6); d.add("reduce-1", 1ull << S.tc.size(), "all sets of simple conditions over one variable at most " + std::to_string(S.K), [](u64 i, Case &c) { std::vector<int> p; for (size_t k = 0; k < S.tc.size(); ++k) if (i >> k & 1) p.push_back((int) k); reduce(S, p, c); }); }
    { static Simple S(2, 1); d.add("reduce-2", (1ull << S.tc.size()) * 2, "all sets of simple conditions over two variables at most 1, in two orders", [](u64 i, Case &c) { std::vector<int> p; for (size_t k = 0; k < S.tc.size(); ++k) if (i >> (k + 1) & 1) p.push_back((int) k); if (i & 1) std::reverse(p.begin(), p.end()); reduce(S, p, c); }); }
    { static Simple S(2, 2); static u64 n = S.tc.size(); d.add("reduce-2-2", n * n * n, "all triples of simple conditions over two variables at most 2, in any order", [](u64 i, Case &c) { int a = i % n, b = i / n % n, e = i / n / n; if (a == b || b == e || a == e) return; reduce(S, {a, b, e}, c); }); }
    { static Simple S(2, 2); static u64 n = 1ull << S.tc.size(); static u64 st = 1; d.add("reduce-2-many", n / st, "all 2^" + std::to_string(S.tc.size()) + " sets of simple conditions over two variables at most 2", [](u64 i, Case &c) { i *= st; std::vector<int> p; for (size_t k = 0; k < S.tc.size(); ++k) if (i >> k & 1) p.push_back((int) k); reduce(S, p, c); }); }
    { static Simple S(3, 1); static u64 n = S.tc.size(); d.add("reduce-3", n * n * n * (th ? n : 1), "all triples (thorough: quadruples) of simple conditions over three variables at most 1", [](u64 i, Case &c) { std::vector<int> p; std::set<int> q; for (int k = 0; k < 4 && (k < 3 || i); ++k) { p.push_back(i % n); q.insert(i % n); i /= n; } if (q.size() == p.size()) reduce(S, p, c); }); }
  } else {
    d.statesMean = "elementary languages"; d.transMean = "queries and operations"; d.tracesMean = "words compared with the reference";
    { static auto v = tc::all(1, 4, 9); d.add("elem-1", v.size(), "all intervals, constants <= 4", [](u64 i, Case &c) { elem(v[i], 6, c); }); }
    { static auto v = tc::all(2, 2, 9); d.add("elem-2", v.size(), "all conditions over two variables, constants <= 2", [](u64 i, Case &c) { elem(v[i], 3, c); }); }
    { static auto v = tc::all(3, 1, 9); d.add("elem-3", v.size(), "conditions over three variables any number of bounds, constants <= 1", [](u64 i, Case &c) { elem(v[i], 2, c); }, 120, 16); }
    { static auto v = tc::all(3, 2, th ? 4 : 3, true); d.add("elem-3-2", v.size(), "conditions over three variables at most 2, given by <= " + std::to_string(th ? 4 : 3) + " bounds", [](u64 i, Case &c) { elem(v[i], 2, c); }, 120, 16); }
    { static Univ u(tc::all(1, 3, 9), 5); d.add("elem-pairs-1", u.ds.size(), "all pairs of intervals", [](u64 i, Case &c) { elemPairs(u, i, c); }); }
    { static Univ u(tc::all(2, 1, 9), 3); d.add("elem-pairs-2", u.ds.size(), "all pairs of conditions over two variables, constants <= 1", [](u64 i, Case &c) { elemPairs(u, i, c); }); }
  }
}
MC_MAIN("C19")
