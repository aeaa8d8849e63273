// C25 juxtaposed conditions; C26 renamings of table rows; C27 renaming relations and the assignments made of them
#include <list>
#include "mc.hh"
#include "conds.hh"
#include "conv.hh"
#include "gen.hh"
#include "ta_families.hh"
#include "equivalence.hh"
#include "symbolic_membership_oracle.hh"
#include "timed_automaton_runner.hh"
using namespace learnta; using mc::Case; using mc::u64; using dbm::D; using rs::Set; using rs::Space;
using Pairs = std::vector<std::pair<std::size_t, std::size_t>>;
static std::string show(const Pairs &r) { std::string s = "{"; for (auto &p : r) s += (s.size() > 1 ? "," : "") + std::string("x") + std::to_string(p.first) + "=y" + std::to_string(p.second); return s + "}"; }
static Pairs subset(int n, int m, u64 bits, bool rev = false) { Pairs r; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (bits >> (i * m + j) & 1) r.emplace_back(i, j); if (rev) std::reverse(r.begin(), r.end()); return r; }
static void addEq(D &d, int n, const Pairs &r) { for (auto &p : r) { int a = (int) p.first + 1, b = n + (int) p.second + 1; d.at(a, b) = std::min(d.at(a, b), 1); d.at(b, a) = std::min(d.at(b, a), 1); } }
// a over x_0..x_{n-1}, b over y_0..; the last L of both are the same variables and listed with a
static D join(const D &a, const D &b, int L = 0) {
  int n = a.n, m = b.n; D r(n + m - L); auto ix = [&](int k) { return k == 0 ? 0 : k <= m - L ? n + k : n - L + (k - (m - L)); };
  for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) r.at(i, j) = a.at(i, j);
  for (int i = 0; i <= m; ++i) for (int j = 0; j <= m; ++j) if (i != j) r.at(ix(i), ix(j)) = std::min(r.at(ix(i), ix(j)), b.at(i, j));
  return r;
}
static D part(const D &d, int from, int n) { D r(n); auto f = [&](int i) { return i ? from + i : 0; }; for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) if (i != j) r.at(i, j) = d.at(f(i), f(j)); return r; }
// the region of a point as a canonical DBM
static D region(const std::vector<int> &p, int Q) {
  D r((int) p.size()); auto v = [&](int i) { return i ? p[i - 1] : 0; };
  for (int i = 0; i <= r.n; ++i) for (int j = 0; j <= r.n; ++j) if (i != j) { int x = v(i) - v(j), f = ((x % Q) + Q) % Q; int fl = (x - f) / Q; r.at(i, j) = f ? 2 * (fl + 1) : 2 * fl + 1; }
  return r;
}
// ----- C25
static bool exact(const Zone &z, const D &want, Case &c, const std::string &what) {
  if ((int) z.getNumOfVar() != want.n) { c.fail(what + ": has " + std::to_string(z.getNumOfVar()) + " variables"); return false; }
  D g = dbm::fromLib(z); c.traces(); for (int i = 0; i <= g.n; ++i) g.at(i, i) = 1;
  if (g.m == want.m) return true; D h = g; bool s = h.close();
  c.fail(what + ": got " + g.show() + (s && h.m == want.m ? " (right set, but not in tight form)" : ", expected " + want.show())); return false;
}
static void jux(const D &a, const D &b, Case &c) {
  int n = a.n, m = b.n; auto ta = tc::make(a), tb = tc::make(b); c.states(); c.nontrivial();
  std::string nm = "[" + tc::show(a) + "] with [" + tc::show(b) + "]";
  D w = join(a, b); w.close();
  for (int again = 0; again < 2; ++again) {
    JuxtaposedZone z = ta ^ tb; if (!exact(z, w, c, nm)) return; if (z.getLeftSize() != n) return c.fail(nm + ": left size is " + std::to_string(z.getLeftSize()));
    for (u64 bits = 0; bits < (1ull << (n * m)); ++bits) {
      if (again && bits % 3) continue;
      Pairs r = subset(n, m, bits, again); JuxtaposedZone y = z; y.addRenaming(r); D e = w; addEq(e, n, r); bool sat = e.close(); c.transitions();
      std::string t = nm + " and " + show(r);
      if (y.isSatisfiableNoCanonize() != sat || static_cast<bool>(JuxtaposedZone(y)) != sat) return c.fail(t + ": satisfiable is " + std::to_string(!sat));
      if (!sat) continue;
      if (!exact(y, e, c, t)) return;
      Pairs want; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (e.at(i + 1, n + j + 1) == 1 && e.at(n + j + 1, i + 1) == 1) want.emplace_back(i, j);
      if (y.makeRenaming() != want) return c.fail(t + ": the implied equalities are " + show(y.makeRenaming()) + ", expected " + show(want));
      Zone right = y.getRight(); if (!exact(right, part(e, n, m), c, t + ", right side")) return;
    }
  }
  for (int L = 0; L <= std::min(n, m); ++L) for (int again = 0; again < 2; ++again) {
    D e = join(a, b, L); bool sat = e.close(); JuxtaposedZone z = again ? tb.juxtaposeLeft(ta, L) : ta.juxtaposeRight(tb, L); c.transitions(); std::string t = nm + " sharing " + std::to_string(L);
    if (z.isSatisfiableNoCanonize() != sat) return c.fail(t + ": satisfiable is " + std::to_string(!sat));
    if (sat && !exact(z, e, c, t)) return;
    if (!sat) continue;
    for (u64 bits = 1; bits < (1ull << (n * (m - L))); ++bits) { Pairs r = subset(n, m - L, bits); JuxtaposedZone y = z; y.addRenaming(r); D f = e; addEq(f, n, r); bool s2 = f.close(); c.transitions(); if (y.isSatisfiableNoCanonize() != s2) return c.fail(t + " and " + show(r) + ": satisfiable is " + std::to_string(!s2)); if (s2 && !exact(y, f, c, t + " and " + show(r))) return; }
  }
}
static void sets(const std::vector<D> &pool, int i, int j, int k, int l, const D &wa, const D &wb, int L, Case &c) {
  // {pool_i, pool_j} juxtaposed with wb, against wa juxtaposed with {pool_k, pool_l}
  TimedConditionSet s1 = TimedConditionSet::bottom(), s2 = TimedConditionSet::bottom(); std::vector<const D *> d1, d2;
  auto put = [&](TimedConditionSet &s, std::vector<const D *> &v, int q) { if (q < (int) pool.size()) { s.push_back(tc::make(pool[q])); v.push_back(&pool[q]); } };
  put(s1, d1, i); if (j != i) put(s1, d1, j); put(s2, d2, k); if (l != k) put(s2, d2, l);
  auto ta = tc::make(wa), tb = tc::make(wb); int n = wa.n, m = wb.n; c.states();
  for (u64 bits = 0; bits < (1ull << (n * (m - L))); ++bits) {
    Pairs r = subset(n, m - L, bits); JuxtaposedZoneSet x{s1, tb, (std::size_t) L}, y{ta, s2, (std::size_t) L}; x.addRenaming(r); y.addRenaming(r); c.transitions();
    std::set<std::vector<int>> a, b; for (auto *d : d1) { D e = join(*d, wb, L); addEq(e, n, r); if (e.close()) a.insert(e.m); } for (auto *d : d2) { D e = join(wa, *d, L); addEq(e, n, r); if (e.close()) b.insert(e.m); }
    c.traces(); if ((x == y) != (a == b) || (y == x) != (a == b) || (x != y) == (a == b)) return c.fail("sets of " + std::to_string(d1.size()) + " and " + std::to_string(d2.size()) + " juxtaposed conditions under " + show(r) + " sharing " + std::to_string(L) + " compare " + (a == b ? "different" : "equal"));
    if (a == b && !a.empty()) c.nontrivial();
    if (!L) { JuxtaposedZoneSet z{s1, tb}; z.addRenaming(r); if (z != x) return c.fail("the two ways to juxtapose without common variables differ"); }
  }
}
// ----- C27
static bool point(const D &d, int j) { return d.at(j + 1, 0) < dbm::INF && d.at(j + 1, 0) % 2 && d.at(0, j + 1) == 2 - d.at(j + 1, 0); }
static void relation(const std::vector<int> &p, int Qp, const std::vector<int> &q, int Qq, int maxPairs, Case &c) {
  D a = region(p, Qp), b = region(q, Qq); int n = a.n, m = b.n; auto vp = tc::real(p, Qp), vq = tc::real(q, Qq); TimedCondition s(vp), t(vq); c.states();
  std::string nm = "source [" + tc::show(a) + "] target [" + tc::show(b) + "]"; c.key(nm);
  auto val = RenamingRelation::toValuation(t); c.traces(); { if ((int) val.size() != m) return c.fail("the valuation has a wrong size"); std::vector<long long> l; for (double d : val) l.push_back(std::llround(d * (1ll << 30))); if (rs::canon(l, 1ll << 30, Qq) != q) return c.fail(nm + ": the constructed valuation lies outside the target"); }
  auto g = toGraph(s, t); c.transitions();
  for (int i = 0; i < n; ++i) { std::vector<std::size_t> w; for (int j = 0; j < m; ++j) if (a.at(i + 1, 0) == b.at(j + 1, 0)) w.push_back(j); if (g.first.at(i) != w) return c.fail(nm + ": the graph has wrong edges at source clock " + std::to_string(i)); }
  for (int j = 0; j < m; ++j) { std::vector<std::size_t> w; for (int i = 0; i < n; ++i) if (a.at(i + 1, 0) == b.at(j + 1, 0)) w.push_back(i); if (g.second.at(j) != w) return c.fail(nm + ": the graph has wrong edges at target clock " + std::to_string(j)); }
  D base = join(a, b); base.close();
  for (u64 bits = 0; bits < (1ull << (n * m)); ++bits) {
    if (__builtin_popcountll(bits) > maxPairs) continue;
    Pairs ps = subset(n, m, bits, bits % 3 == 0); RenamingRelation r; for (auto &x : ps) r.push_back(x); c.transitions(); std::string tx = nm + " " + show(ps);
    std::set<std::size_t> rv; for (auto &x : ps) rv.insert(x.second);
    auto got = r.rightVariables(); if (std::vector<std::size_t>(got.begin(), got.end()) != std::vector<std::size_t>(rv.begin(), rv.end())) return c.fail(tx + ": wrong right variables");
    bool uniq = rv.size() == ps.size(); if (r.isRightUnique() != uniq) return c.fail(tx + ": right-unique is " + std::to_string(!uniq));
    bool full = true, triv = true; for (int j = 0; j < m; ++j) { full &= point(b, j) || rv.count(j); triv &= point(b, j) || !rv.count(j); }
    if (r.full(t) != full) return c.fail(tx + ": full is " + std::to_string(!full));
    if (r.onlyTrivial(t) != triv) return c.fail(tx + ": onlyTrivial is " + std::to_string(!triv));
    bool all = true; for (int j = 0; j < m; ++j) if (point(b, j) && !rv.count(j)) for (int i = 0; i < n; ++i) all &= !(point(a, i) && a.at(i + 1, 0) == b.at(j + 1, 0));
    if (r.containsAllTrivial(s, t) != all) return c.fail(tx + ": containsAllTrivial is " + std::to_string(!all));
    bool imp = !ps.empty() && !full && !triv; if (r.hasImpreciseClocks(t) != imp) return c.fail(tx + ": hasImpreciseClocks is " + std::to_string(!imp));
    std::vector<ClockVariables> ic; if (imp) for (int j = 0; j < m; ++j) if (!point(b, j) && !rv.count(j)) ic.push_back(j);
    if (r.impreciseClocks(t) != ic) return c.fail(tx + ": wrong imprecise clocks");
    for (int i = 0; i < n; ++i) { RenamingRelation k = r; k.eraseLeft(i); Pairs w; for (auto &x : ps) if ((int) x.first != i) w.push_back(x); if (Pairs(k.begin(), k.end()) != w) return c.fail(tx + ": erasing source clock " + std::to_string(i) + " is wrong"); }
    D e = base; addEq(e, n, ps); if (!e.close()) continue;
    c.nontrivial(); c.traces();
    { RenamingRelation k = r; k.addImplicitConstraints(s, t); D f = base; addEq(f, n, Pairs(k.begin(), k.end())); f.close(); if (f.m != e.m) return c.fail(tx + ": completing it by implied equalities changes its meaning: " + show(Pairs(k.begin(), k.end()))); if (!k.isRightUnique()) return c.fail(tx + ": completed relation is not right-unique");
      for (int j = 0; j < m; ++j) { bool im = false; for (int i = 0; i < n; ++i) im |= e.at(i + 1, n + j + 1) == 1 && e.at(n + j + 1, i + 1) == 1; bool has = std::any_of(k.begin(), k.end(), [&](auto &x) { return (int) x.second == j; }); if (im != has) return c.fail(tx + ": the implied equality of target clock " + std::to_string(j) + " is " + (im ? "missing" : "invented")); } }
    if (!uniq) continue;
    auto rs_ = r.toReset(s, t); std::vector<int> cnt(m, 0); std::vector<double> res(m, -1);
    for (auto &x : rs_) { if (x.first < 0 || x.first >= m) return c.fail(tx + ": assigns a clock that does not exist"); ++cnt[x.first]; if (x.second.index() == 1) { auto y = std::get<ClockVariables>(x.second); if (y < 0 || y >= n) return c.fail(tx + ": copies a clock that does not exist"); res[x.first] = vp[y]; if (!rv.count(x.first)) return c.fail(tx + ": copies to an unrelated clock"); } else res[x.first] = std::get<double>(x.second); }
    for (int j = 0; j < m; ++j) { if (cnt[j] != 1) return c.fail(tx + ": clock " + std::to_string(j) + " is assigned " + std::to_string(cnt[j]) + " times"); D iv = part(b, j, 1); std::vector<int> one{(int) std::llround(res[j] * 1024)}; if (!iv.has(one, 1024)) return c.fail(tx + ": clock " + std::to_string(j) + " gets a value outside the target"); }
    if (full) { std::vector<long long> l; for (double d : res) l.push_back(std::llround(d * (1ll << 30))); if (rs::canon(l, 1ll << 30, Qq) != q) return c.fail(tx + ": the assignment does not lead into the target"); }
  }
}
// ----- C26
struct Row { ElementaryLanguage lang; D d; std::string w; std::vector<TimedConditionSet> cells; std::vector<TimedCondition> cat; std::vector<std::vector<std::pair<D, bool>>> regs; };   // regs: regions of prefix.suffix with acceptance
static const std::vector<int> &inside(const D &d, int M) {
  static std::map<std::vector<int>, std::vector<int>> memo; auto it = memo.find(d.m); if (it != memo.end()) return it->second;
  const Space &sp = tc::space(d.n, M); std::vector<int> v; for (size_t k = 0; k < sp.size(); ++k) if (tc::mono(sp.pts[k]) && d.has(sp.pts[k], sp.Q)) v.push_back((int) k); return memo[d.m] = v;
}
static bool reallyEqual(const Row &p, const Row &q, size_t s, size_t L, const Pairs &r) {
  int n = p.d.n, m = q.d.n;
  for (auto &[a, x] : p.regs[s]) for (auto &[b, y] : q.regs[s]) if (x != y) {
    // is there a pair of words in these regions with the same tail, related by r?
    D e = join(a, b, (int) L); (void) n;
    for (auto &z : r) { int u = (int) z.first + 1, v = a.n + (int) z.second + 1; e.at(u, v) = std::min(e.at(u, v), 1); e.at(v, u) = std::min(e.at(v, u), 1); }
    (void) m; if (e.close()) return false;
  }
  return true;
}
struct Shape { int maxN, K, sufLen, sufK, M; size_t prefCap; };
static void rows(const ref::TA &a, const std::string &al, const Shape &sh, Case &c) {
  c.key(ref::show(a)); auto t = conv::toLib(a); SymbolicMembershipOracle o(std::make_unique<TimedAutomatonRunner>(t));
  auto words = [&](int n) { std::vector<std::string> ws{""}; for (int i = 0; i < n; ++i) { std::vector<std::string> x; for (auto &w : ws) for (char l : al) x.push_back(w + l); ws = x; } return ws; };
  std::vector<BackwardRegionalElementaryLanguage> S;
  for (int n = 0; n <= sh.sufLen; ++n) for (auto &w : words(n)) { const Space &sp = tc::space(n + 1, sh.sufK); for (size_t k = 0; k < sp.size(); ++k) if (tc::mono(sp.pts[k])) { auto e = BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w, tc::durations(tc::real(sp.pts[k], sp.Q))}); if (std::find(S.begin(), S.end(), e) == S.end()) S.push_back(e); } }
  std::vector<Row> P; size_t total = 0; for (int n = 1; n <= sh.maxN; ++n) total += words(n - 1).size() * tc::monotone(n, sh.K).size();
  for (int n = 1; n <= sh.maxN; ++n) for (auto &w : words(n - 1)) { const Space &sp = tc::space(n, sh.K); size_t cnt = 0; for (size_t k = 0; k < sp.size(); ++k) if (tc::mono(sp.pts[k])) ++cnt; size_t st = std::max<size_t>(1, cnt / sh.prefCap), i = 0; for (size_t k = 0; k < sp.size(); ++k) if (tc::mono(sp.pts[k]) && i++ % st == (n > 2 ? c.idx % st : 0)) P.push_back({ElementaryLanguage{w, TimedCondition(tc::real(sp.pts[k], sp.Q))}, region(sp.pts[k], sp.Q), w, {}, {}, {}}); }
  for (auto &p : P) for (auto &s : S) {
    p.cells.push_back(o.query(p.lang + s)); p.cat.push_back((p.lang + s).getTimedCondition()); c.states();
    D d = tc::read(p.cat.back()); std::vector<std::pair<D, bool>> rg; int M = (d.at(1, 0) >> 1); const Space &sp = tc::space(d.n, M);
    for (int k : inside(d, M)) { ref::Word x; x.w = p.w + s.getWord(); const auto &pt = sp.pts[k]; for (size_t i = 0; i < pt.size(); ++i) x.dur.push_back(pt[i] - (i + 1 < pt.size() ? pt[i + 1] : 0)); rg.emplace_back(region(pt, sp.Q), ref::accepts(a, x, sp.Q)); }
    p.regs.push_back(rg);
  }
  // suffix sets: each suffix alone, growing prefixes of the list
  std::vector<std::vector<int>> sets; for (size_t i = 0; i < S.size(); i += std::max<size_t>(1, S.size() / 6)) sets.push_back({(int) i}); { std::vector<int> v; for (size_t i = 0; i < S.size(); ++i) v.push_back((int) i); sets.push_back(v); std::vector<int> h; for (int i : v) if (i % 2) h.push_back(i); sets.push_back(h); }
  u64 found = 0;
  for (auto &set : sets) {
    std::vector<BackwardRegionalElementaryLanguage> suf; for (int i : set) suf.push_back(S[i]);
    auto pickS = [&](const std::vector<TimedConditionSet> &v) { std::vector<TimedConditionSet> r; for (int i : set) r.push_back(v[i]); return r; };
    auto pickC = [&](const std::vector<TimedCondition> &v) { std::vector<TimedCondition> r; for (int i : set) r.push_back(v[i]); return r; };
    std::vector<std::vector<TimedConditionSet>> cells; std::vector<std::vector<TimedCondition>> cats; for (auto &p : P) { cells.push_back(pickS(p.cells)); cats.push_back(pickC(p.cat)); }
    for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < P.size(); ++j) {
      const Row &p = P[i], &q = P[j]; int n = p.d.n, m = q.d.n; c.transitions();
      auto txt = [&] { return "prefixes (" + p.w + ", " + tc::show(p.d) + ") and (" + q.w + ", " + tc::show(q.d) + ") with " + std::to_string(set.size()) + " suffixes" + (set.size() == 1 ? " " + std::string(S[set[0]].getWord()) + " " + tc::show(tc::read(S[set[0]].getTimedCondition())) : ""); };
      auto judge = [&](const RenamingRelation &r, const std::string &what) {
        D e = join(p.d, q.d); Pairs ps(r.begin(), r.end()); addEq(e, n, ps); if (!e.close()) { c.fail(txt() + ": " + what + " " + show(ps) + " contradicts the prefixes"); return false; }
        for (int s : set) { c.traces(); if (!reallyEqual(p, q, s, S[s].wordSize(), ps)) { c.fail(txt() + ": " + what + " " + show(ps) + " but suffix " + S[s].getWord() + " " + tc::show(tc::read(S[s].getTimedCondition())) + " distinguishes related words"); return false; } }
        return true; };
      auto r = findDeterministicEquivalentRenaming(p.lang, cells[i], q.lang, cells[j], suf);
      auto r2 = findDeterministicEquivalentRenaming(p.lang, cells[i], cats[i], q.lang, cells[j], cats[j], suf);
      if (r.has_value() != r2.has_value() || (r && *r != *r2)) return c.fail(txt() + ": the two forms of findDeterministicEquivalentRenaming differ");
      if (!r) { bool eq = true; for (int s : set) eq = eq && reallyEqual(p, q, s, S[s].wordSize(), {}); if (eq) return c.fail(txt() + ": equal rows are not related"); }
      if (i == j && !r) return c.fail(txt() + ": a prefix is not related to itself");
      if (r) { ++found; if (!judge(*r, "found renaming")) return; if (r->hasImpreciseClocks(q.lang.getTimedCondition())) return c.fail(txt() + ": the renaming leaves clocks imprecise"); }
      if (n * m <= 4 && (i + j + c.idx) % 3 == 0) for (u64 bits = 0; bits < (1ull << (n * m)); ++bits) { RenamingRelation x; for (auto &z : subset(n, m, bits)) x.push_back(z); bool eq = equivalence(p.lang, cells[i], q.lang, cells[j], suf, x); if (eq != equivalence(p.lang, cells[i], cats[i], q.lang, cells[j], cats[j], suf, x)) return c.fail(txt() + ": the two forms of equivalence differ"); if (eq && !judge(x, "equivalence under")) return; }
    }
  }
  c.extra(1, found); if (found) c.nontrivial();
}
static std::vector<D> bounded(const std::vector<D> &v, int M) { std::vector<D> r; for (auto &d : v) if (d.at(1, 0) < 2 * M + 2) r.push_back(d); return r; }
void mc::Driver::setup(mc::Driver &d) {
  bool th = d.thorough();
  if (d.prop == "C25") {
    d.statesMean = "pairs of conditions juxtaposed"; d.transMean = "juxtapositions with sets of equalities"; d.tracesMean = "resulting zones compared with the exact tight constraints";
    static auto c1 = tc::all(1, 2, 9), c2 = tc::all(2, 1, 9), c22 = tc::all(2, 2, 2), c3 = tc::all(3, 1, th ? 3 : 1, true);
    auto fam = [&](const std::string &nm, const std::vector<D> *a, const std::vector<D> *b, const std::string &sp) { u64 n = a->size(), m = b->size(); d.add(nm, n * m, sp + ", all sets of equalities, all numbers of common variables", [a, b, n](u64 i, Case &c) { const D &x = (*a)[i % n], &y = (*b)[i / n]; c.key("[" + tc::show(x) + "] with [" + tc::show(y) + "]"); jux(x, y, c); }, 60, 64); };
    fam("jux-1-1", &c1, &c1, "all pairs of intervals, constants <= 2");
    fam("jux-1-2", &c1, &c2, "all pairs of an interval and a condition over two variables");
    fam("jux-2-1", &c2, &c1, "all pairs of a condition over two variables and an interval");
    fam("jux-2-2", &c2, &c2, "all pairs of conditions over two variables, constants <= 1");
    fam("jux-22-2", &c22, &c2, "pairs of conditions over two variables, constants <= 2 and <= 1");
    fam("jux-3-2", &c3, &c2, "pairs of three-variable conditions and conditions over two variables");
    fam("jux-2-3", &c2, &c3, "pairs of conditions over two variables and three-variable conditions");
    if (th) { static auto c3b = tc::all(3, 1, 1, true); fam("jux-3-3", &c3b, &c3b, "pairs of three-variable conditions"); }
    static std::vector<D> pool; { const Space &sp = tc::space(2, 1); for (auto &p : sp.pts) if (tc::mono(p)) pool.push_back(region(p, sp.Q)); }
    static std::vector<D> whole{tc::all(2, 1, 9, true)[0], tc::all(2, 1, 9)[0], pool[1], tc::all(2, 1, 9)[7]};
    u64 n = pool.size() + 1; d.add("sets", n * n * n * n, "all pairs of sets of <= 2 disjoint conditions over two variables (regions at most 1), the other side any of 3 conditions, 0-2 common variables, all sets of equalities", [n](u64 i, Case &c) { int a = i % n, b = i / n % n, e = i / n / n % n, f = i / n / n / n; if (a > b) return; c.key("sets " + std::to_string(i)); for (int L = 0; L <= 2; ++L) { sets(pool, a, b, e, f, whole[0], whole[0], L, c); sets(pool, a, b, e, f, whole[(a + f) % whole.size()], whole[(b + e) % whole.size()], L, c); } }, 60, 16);
  } else if (d.prop == "C27") {
    d.statesMean = "pairs of simple conditions"; d.transMean = "renaming relations built"; d.tracesMean = "relations with a model: implied equalities, assignments and valuations compared";
    auto fam = [&](int n, int m, int K, int mx) { const Space *a = &tc::space(n, K), *b = &tc::space(m, K); static std::map<std::pair<int, int>, std::vector<int>> mon; auto pick = [&](const Space *s, int k) { auto &v = mon[{k, K}]; if (v.empty()) for (size_t i = 0; i < s->size(); ++i) if (tc::mono(s->pts[i])) v.push_back((int) i); return &v; }; auto *x = pick(a, n), *y = pick(b, m); u64 tot = x->size() * y->size();
      d.add("relations-" + std::to_string(n) + "-" + std::to_string(m), tot, "all pairs of simple conditions over " + std::to_string(n) + " and " + std::to_string(m) + " clocks at most " + std::to_string(K) + ", all relations of <= " + std::to_string(mx) + " pairs", [a, b, x, y, mx](u64 i, Case &c) { relation(a->pts[(*x)[i % x->size()]], a->Q, b->pts[(*y)[i / x->size()]], b->Q, mx, c); }, 60, 16); };
    fam(1, 1, 6, 9); fam(1, 2, 4, 9); fam(2, 1, 4, 9); fam(2, 2, 4, 9); fam(1, 3, 3, 9); fam(3, 1, 3, 9); fam(2, 3, th ? 3 : 2, 9); fam(3, 2, th ? 3 : 2, 9); fam(3, 3, th ? 2 : 1, th ? 4 : 9); fam(4, 2, 1, 9); fam(2, 4, 1, 9); if (th) fam(3, 3, 1, 9);
  } else {
    d.statesMean = "cells of observation tables"; d.transMean = "pairs of rows related"; d.tracesMean = "columns judged word by word (regions of both rows, exact)"; d.extraNames = {{1, "renamings_found"}};
    auto add = [&](const fam::Named &f0, Shape s, u64 cap, const std::string &tag) { auto f = fam::fit(f0, cap); d.add(tag + "-" + f.name, f.total, f.space + "; rows: simple languages of words of length < " + std::to_string(s.maxN) + " (times at most " + std::to_string(s.K) + "), suffixes: all of length <= " + std::to_string(s.sufLen) + " (times at most " + std::to_string(s.sufK) + "), several sets of suffixes", [f, s](u64 i, Case &c) { rows(f.make(i), f.alphabet, s, c); }, 200, 1); };
    u64 k = th ? 40 : 5; Shape s2{2, 2, 1, 1, 4, 1000}, s3{3, 1, 1, 1, 3, 8};
    add(fam::single(), s2, 1000, "rows"); add(fam::split21(), s2, 1000, "rows");
    add(fam::one(true), s2, 60 * k, "rows"); add(fam::split2(), s2, 60 * k, "rows"); add(fam::two(true), s2, 60 * k, "rows"); add(fam::larger(), s2, 40 * k, "rows"); add(fam::letters2(), s2, 20 * k, "rows");
    add(fam::two(true), s3, 40 * k, "rows3"); add(fam::split2(), s3, 40 * k, "rows3"); add(fam::tiny3clk(), s3, 40 * k, "rows3");
  }
}
MC_MAIN("C25")
