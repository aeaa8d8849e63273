// C14 guard algebra; C15 determinism and merging of the transitions of a location; C17 algebra of assignments
#include <bitset>
#include "mc.hh"
#include "conv.hh"
#include "gen.hh"
using namespace learnta; using mc::Case; using mc::u64;
using Rs = TATransition::Resets; using G = std::vector<Constraint>; using Box = std::bitset<640>;
// valuations: every clock in {0, 1/2, 1, .., C+1}: one point for every region of guards (no diagonals)
struct Grid {
  int n, C, V; size_t N; std::vector<std::vector<double>> pt;
  Grid(int n_, int C_) : n(n_), C(C_), V(2 * C_ + 3), N(1) { for (int i = 0; i < n; ++i) N *= V; for (size_t k = 0; k < N; ++k) { std::vector<double> p; size_t q = k; for (int i = 0; i < n; ++i) { p.push_back((q % V) / 2.0); q /= V; } pt.push_back(p); } }
  static bool holds(const Constraint &c, double v) { auto g = conv::guard(c); double d = g.c; return g.op == ref::LT ? v < d : g.op == ref::LE ? v <= d : g.op == ref::GE ? v >= d : v > d; }
  Box set(const G &g) const { Box b; for (size_t k = 0; k < N; ++k) { bool ok = true; for (auto &c : g) ok = ok && holds(c, pt[k][c.x]); b[k] = ok; } return b; }
  Box set(const std::vector<G> &d) const { Box b; for (auto &g : d) b |= set(g); return b; }
  Box all() const { Box b; for (size_t k = 0; k < N; ++k) b[k] = 1; return b; }
};
static std::string show(const G &g) { std::string s; for (auto &c : g) { std::ostringstream o; auto q = conv::guard(c); o << char('x' + q.x) << (q.op == ref::LT ? "<" : q.op == ref::LE ? "<=" : q.op == ref::GE ? ">=" : ">") << q.c; s += (s.empty() ? "" : " & ") + o.str(); } return s.empty() ? "true" : s; }
static std::string show(const std::vector<G> &d) { std::string s; for (auto &g : d) s += (s.empty() ? "" : " or ") + show(g); return s.empty() ? "false" : s; }
struct Lists {                          // all ordered lists of <= len constraints
  int n, C, len; std::vector<Constraint> m; std::vector<u64> cnt;
  Lists(int n_, int C_, int l) : n(n_), C(C_), len(l) { for (int x = 0; x < n; ++x) for (int c = 0; c <= C; ++c) for (int o = 0; o < 4; ++o) m.push_back(conv::constraint({x, o, c})); u64 t = 1; for (int i = 0; i <= len; ++i) { cnt.push_back(t); t *= m.size(); } }
  u64 total() const { u64 t = 0; for (auto c : cnt) t += c; return t; }
  G make(u64 i) const { int l = 0; while (i >= cnt[l]) i -= cnt[l++]; G g; for (int k = 0; k < l; ++k) { g.push_back(m[i % m.size()]); i /= m.size(); } return g; }
};
struct Boxes {                          // all products of one interval per clock (irredundant, satisfiable)
  int n, C; std::vector<std::vector<std::vector<ref::Guard>>> iv;
  Boxes(int n_, int C_) : n(n_), C(C_) { for (int x = 0; x < n; ++x) iv.push_back(gen::guards1(x, C)); }
  u64 total() const { u64 t = 1; for (auto &v : iv) t *= v.size(); return t; }
  G make(u64 i) const { G g; for (auto &v : iv) { for (auto &r : v[i % v.size()]) g.push_back(conv::constraint(r)); i /= v.size(); } return g; }
};
// per clock: interval of the values (as the library understands a conjunction), as a set of half-units
static Box hull(const Grid &gr, const std::vector<Box> &sets) {   // smallest box guard containing all of them
  std::vector<int> lo(gr.n, 1 << 20), hi(gr.n, -1); bool any = false;
  for (auto &s : sets) for (size_t k = 0; k < gr.N; ++k) if (s[k]) { any = true; for (int x = 0; x < gr.n; ++x) { int v = int(gr.pt[k][x] * 2); lo[x] = std::min(lo[x], v); hi[x] = std::max(hi[x], v); } }
  Box b; if (!any) return b;
  for (size_t k = 0; k < gr.N; ++k) { bool ok = true; for (int x = 0; x < gr.n; ++x) { int v = int(gr.pt[k][x] * 2); ok = ok && v >= lo[x] && v <= hi[x]; } b[k] = ok; }
  return b;
}
static void one(const Grid &gr, const Constraint &c, const Constraint &d, Case &cs) {
  cs.key(show(G{c}) + " / " + show(G{d})); cs.nontrivial(); cs.states();
  Box bc = gr.set(G{c}), bd = gr.set(G{d}); auto q = conv::guard(c), r = conv::guard(d);
  for (size_t k = 0; k < gr.N; ++k) {
    bool h = bc[k]; auto &v = gr.pt[k]; cs.transitions(); cs.traces();
    if (c.satisfy(v[c.x]) != h || c.satisfy(v) != h) { cs.fail(show(G{c}) + " satisfied by " + std::to_string(v[c.x]) + "?"); return; }
    auto o = c(v); bool up = q.op < 2; auto want = h ? learnta::Order::EQ : up ? learnta::Order::GT : learnta::Order::LT;
    if (o != want || toBool(o) != h) { cs.fail("comparison of " + std::to_string(v[c.x]) + " with " + show(G{c})); return; }
  }
  if (c.isUpperBound() != (q.op < 2)) cs.fail("direction of " + show(G{c}));
  if (gr.set(G{c.negate()}) != (gr.all() & ~bc)) cs.fail("negation of " + show(G{c}) + " is " + show(G{c.negate()}));
  auto b = c.toBound(); if (b.first != c.c || b.second != (q.op == ref::LE || q.op == ref::GE)) cs.fail("bound of " + show(G{c}));
  auto db = c.toDBMBound(); if (db.first != (q.op < 2 ? c.c : -c.c) || db.second != b.second) cs.fail("matrix bound of " + show(G{c}));
  // weaker: same clock, same direction, implied over the reals
  bool sameDir = q.x == r.x && (q.op < 2) == (r.op < 2), w = false;
  if (sameDir) { bool ce = q.op == ref::LE || q.op == ref::GE, de = r.op == ref::LE || r.op == ref::GE; w = q.c == r.c ? (ce || !de) : (q.op < 2 ? r.c < q.c : r.c > q.c); }
  if (c.isWeaker(d) != w) cs.fail(show(G{c}) + " weaker than " + show(G{d}) + " is answered " + (w ? "no" : "yes"));
  if ((c == d) != (q.x == r.x && q.op == r.op && q.c == r.c)) cs.fail("equality of " + show(G{c}) + " and " + show(G{d}));
  if (c == d && hash_value(c) != hash_value(d)) cs.fail("hash of " + show(G{c}));
}
static bool nonRedundant(const G &g) { std::set<std::pair<int, bool>> s; for (auto &c : g) if (!s.insert({c.x, c.isUpperBound()}).second) return false; return true; }
static void list(const Grid &gr, const G &g, Case &c) {
  c.key("list " + show(g)); c.states(); Box s = gr.set(g); c.traces(gr.N); c.transitions(8);
  bool sat = s.any(); if (g.size() > 1) c.nontrivial();
  if (satisfiable(g) != sat) { c.fail(show(g) + " is called " + (sat ? "un" : "") + "satisfiable"); return; }
  auto si = simplify(g);
  if (gr.set(si) != s) { c.fail("simplification of " + show(g) + " is " + show(si)); return; }
  if (!nonRedundant(si)) { c.fail("simplification of " + show(g) + " is redundant: " + show(si)); return; }
  if (sat && simplify(si) != si) { c.fail("simplification of " + show(g) + " is not stable"); return; }
  if (!learnta::isWeaker(si, g) && sat) { c.fail("simplification of " + show(g) + ", " + show(si) + ", is not weaker than it"); return; }
  auto [ub, lb] = toBounds(g); int mx = -1; for (auto &k : g) mx = std::max<int>(mx, k.x);
  if ((int) ub.size() != mx + 1 || (int) lb.size() != mx + 1) { c.fail("number of bounds of " + show(g)); return; }
  if (sat) {
    std::vector<ClockVariables> want;
    for (int x = 0; x <= mx; ++x) { Box h = s; int lo = 1 << 20, hi = -1; for (size_t k = 0; k < gr.N; ++k) if (h[k]) { int v = int(gr.pt[k][x] * 2); lo = std::min(lo, v); hi = std::max(hi, v); } if (lo == hi && hi < 2 * gr.C + 1 + (hi % 2 == 0)) want.push_back(x); }
    auto got = simpleVariables(g); if (got != want) { c.fail("clocks bounded to one region in " + show(g) + ": " + std::to_string(got.size()) + " instead of " + std::to_string(want.size())); return; }
  }
  auto w = g; widen(w); G wu; for (auto &k : g) if (conv::guard(k).op < 2) wu.push_back(k); if (w != wu) { c.fail("widening of " + show(g) + " is " + show(w)); return; }
  auto na = negateAll(g); if (na.size() != g.size()) { c.fail("negateAll of " + show(g)); return; }
  for (size_t i = 0; i < g.size(); ++i) if (gr.set(G{na[i]}) != (gr.all() & ~gr.set(G{g[i]}))) { c.fail("negateAll of " + show(g)); return; }
  if (nonRedundant(g)) {
    auto u = g; addUpperBound(u); Box us = gr.set(u); if ((us & ~s).any()) { c.fail("bounding " + show(g) + " gives " + show(u) + ", which is not contained in it"); return; }
    if (sat && !us.any()) { c.fail("bounding " + show(g) + " gives the empty guard " + show(u)); return; }
    std::map<int, int> seen; for (auto &k : u) seen[k.x] |= k.isUpperBound() ? 2 : 1; for (auto &[x, m] : seen) if (!(m & 2)) { c.fail("bounding " + show(g) + " leaves a clock unbounded: " + show(u)); return; }
    // an urgent transition is taken at the first moment: a lone x >= c becomes x = c, everything else about the guard stays
    for (int x = 0; x < gr.n; ++x) {
      G mine, after; for (auto &k : g) if (k.x == x) mine.push_back(k); for (auto &k : u) if (k.x == x) after.push_back(k);
      if (mine.size() == 1 && mine[0].odr == Constraint::Order::ge) { auto eq = mine; eq.push_back(conv::constraint({x, ref::LE, mine[0].c})); if (gr.set(after) != gr.set(eq)) { c.fail("bounding " + show(g) + " gives " + show(u)); return; } }
      if ((mine.size() != 1 || mine[0].isUpperBound()) && gr.set(after) != gr.set(mine)) { c.fail("bounding " + show(g) + " gives " + show(u)); return; }
    }
  }
  if (c.idx % 4999 == 3) c.sample(show(g) + " simplifies to " + show(si));
}
static void pair(const Grid &gr, const G &l, const G &r, bool boxes, Case &c) {
  c.key("pair " + show(l) + " / " + show(r)); c.states(); Box a = gr.set(l), b = gr.set(r); c.traces(gr.N); c.transitions(6); c.nontrivial();
  if (gr.set(conjunction(l, r)) != (a & b)) { c.fail("conjunction of " + show(l) + " and " + show(r) + " is " + show(conjunction(l, r))); return; }
  bool w = learnta::isWeaker(l, r);
  if (w && (b & ~a).any()) { c.fail(show(l) + " is called weaker than " + show(r)); return; }
  bool norm = boxes || (nonRedundant(l) && nonRedundant(r) && simplify(l).size() == l.size() && a.any() && b.any());
  if (norm && !w && !(b & ~a).any()) { c.fail(show(l) + " is not called weaker than " + show(r)); return; }
  {
    auto h = unionHull(l, r), k = unionHull(std::vector<G>{r, l}); Box hs = gr.set(h), ks = gr.set(k);
    if (((a | b) & ~hs).any() || ((a | b) & ~ks).any()) { c.fail("hull of " + show(l) + " and " + show(r) + " is " + show(h) + " / " + show(k)); return; }
    if (norm && a.any() && b.any() && (hs != hull(gr, {a, b}) || ks != hs)) { c.fail("hull of " + show(l) + " and " + show(r) + " is " + show(h) + " / " + show(k) + ", not the smallest"); return; }
  }
  if (boxes) {                          // guards over the same clocks that differ on one clock
    int diff = 0; for (int x2 = 0; x2 < gr.n; ++x2) { G gl, gg; for (auto &k : l) if (k.x == x2) gl.push_back(k); for (auto &k : r) if (k.x == x2) gg.push_back(k); diff += gr.set(gl) != gr.set(gg); }
    TAState t; TATransition tl{&t, Rs{}, l}, tr{&t, Rs{}, r};
    if (diff == 1) {
      bool adj = adjacent(l, r);
      if (tl.mergeable(tr) != adj) { c.fail("mergeable and adjacent disagree on " + show(l) + " and " + show(r)); return; }
      if (adj) { auto m = tl.merge(tr); if (m.target != &t || gr.set(m.guard) != (a | b)) { c.fail("merging the adjacent guards " + show(l) + " and " + show(r) + " gives " + show(m.guard)); return; } }
      Rs zr; zr.emplace_back(0, 0.0); TATransition other{&t, zr, r}; if (tl.mergeable(other)) { c.fail("transitions with different assignments are called mergeable"); return; }
      TAState t2; TATransition other2{&t2, Rs{}, r}; if (tl.mergeable(other2)) { c.fail("transitions with different targets are called mergeable"); return; }
    }
  }
  if (c.idx % 49999 == 3) c.sample(show(l) + " / " + show(r));
}
static void neg(const Grid &gr, const std::vector<G> &d, Case &c) {
  c.key("negate " + show(d)); c.states(); c.transitions(); c.traces(gr.N);
  auto r = negate(d); Box want = gr.all() & ~gr.set(d), got; c.nontrivial();
  for (auto &g : r) { got |= gr.set(g); }
  if (got != want) { c.fail("negation of " + show(d) + " is " + show(r)); return; }
  if (c.idx % 49999 == 3) c.sample("not (" + show(d) + ") = " + show(r));
}
// ----- C15 -----
static void location(const Grid &gr, const std::vector<TATransition> &ts, const TAState *const tg[3], const std::string &txt, Case &c) {
  c.key("location " + txt); c.states(); c.traces(gr.N); c.transitions(6);
  std::vector<Box> s; for (auto &t : ts) s.push_back(gr.set(t.guard));
  bool det = true, split = false; for (size_t i = 0; i < ts.size(); ++i) for (size_t j = 0; j < i; ++j) { bool ov = (s[i] & s[j]).any(); det = det && !ov; if (ov && ts[i].target != ts[j].target && simpleVariables(ts[i].guard) != simpleVariables(ts[j].guard)) split = true; }
  TAState st; st.next['a'] = ts; if (!det) c.nontrivial();
  if (st.deterministic() != det) { c.fail(txt + " is called " + (det ? "non" : "") + "deterministic"); return; }
  { TAState o; for (size_t i = 0; i < ts.size(); ++i) o.next[char('a' + i)] = {ts[i]}; if (!o.deterministic()) { c.fail("transitions of different letters make " + txt + " nondeterministic"); return; } }
  if (st.needSplitting() != split) { c.fail("needSplitting of " + txt + " is answered " + (split ? "no" : "yes")); return; }
  { TimedAutomaton ta; ta.states.push_back(std::make_shared<TAState>()); ta.states[0]->next['a'] = ts; ta.initialStates = ta.states; if (ta.deterministic() != det) { c.fail("automaton with " + txt + " is called " + (det ? "non" : "") + "deterministic"); return; } }
  auto moves = [&](const std::vector<TATransition> &v, bool resets) { std::vector<std::set<std::string>> m(gr.N); for (auto &t : v) { Box b = gr.set(t.guard); std::ostringstream o; o << (t.target == tg[0] ? 0 : t.target == tg[1] ? 1 : t.target == tg[2] ? 2 : 9); if (resets) o << t.resetVars; for (size_t k = 0; k < gr.N; ++k) if (b[k]) m[k].insert(o.str()); } return m; };
  bool sat = std::all_of(s.begin(), s.end(), [](const Box &b) { return b.any(); });
  { TAState x = st; x.removeTransitionsWithWeakerGuards(); if (moves(x.next['a'], false) != moves(ts, false)) { c.fail("removing the transitions with stronger guards changes the moves of " + txt); return; } }
  { TimedAutomaton ta; for (int i = 0; i < 3; ++i) ta.states.push_back(std::make_shared<TAState>(true)); ta.initialStates = {ta.states[0]}; ta.states[0]->next['a'] = ts; ta.simplifyTransitions(); if (moves(ta.states[0]->next['a'], true) != moves(ts, true)) { c.fail("simplifyTransitions changes the moves of " + txt); return; } }
  if (!sat || !std::all_of(ts.begin(), ts.end(), [](const TATransition &t) { return nonRedundant(t.guard); })) return;
  Box un; for (auto &b : s) un |= b; Box hu = hull(gr, s);
  auto covers = [&](const TAState &x, const char *what, bool sameTarget, bool checkDet) {
    auto v = x.next.at('a'); Box got; std::vector<Box> q; for (auto &t : v) { q.push_back(gr.set(t.guard)); got |= q.back(); }
    if ((un & ~got).any()) { c.fail(std::string(what) + " loses valuations of " + txt); return; }
    if ((got & ~hu).any()) { c.fail(std::string(what) + " adds valuations outside of the hull of " + txt); return; }
    for (auto &t : v) if (t.target != tg[0] && t.target != tg[1] && t.target != tg[2]) { c.fail(std::string(what) + " produces a dangling target"); return; }
    if (det && moves(v, true) != moves(ts, true)) { c.fail(std::string(what) + " changes the deterministic location " + txt); return; }
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) if ((q[i] & q[j]).any() && checkDet && (!sameTarget || v[i].target == v[j].target)) { std::string r; for (auto &t : v) r += " [" + show(t.guard) + "]"; c.fail(std::string(what) + " leaves overlapping transitions in " + txt + ":" + r); return; }
    if (sameTarget) { auto a = moves(ts, false), b = moves(v, false); for (size_t k = 0; k < gr.N; ++k) for (auto &m : a[k]) if (!b[k].count(m)) { c.fail(std::string(what) + " loses a move of " + txt); return; } }
  };
  { TAState x = st; x.mergeNondeterministicBranchingWithSameTarget(); covers(x, "merging branches with the same target", true, true); if (c.failed()) return; }
  { TAState x = st; x.mergeNondeterministicBranching(); covers(x, "merging branches", false, true); if (c.failed()) return; }
  for (int m = 0; m < 1 << gr.n; ++m) {   // the variant that prefers transitions whose guards are precise on the given clocks may drop valuations
    std::unordered_set<ClockVariables> pc; for (int x = 0; x < gr.n; ++x) if (m >> x & 1) pc.insert(x);
    TAState x = st; x.mergeNondeterministicBranching(pc); auto v = x.next.at('a'); Box got; std::vector<Box> q; for (auto &t : v) { q.push_back(gr.set(t.guard)); got |= q.back(); } c.transitions();
    if ((got & ~hu).any()) { c.fail("merging branches with precise clocks adds valuations outside of the hull of " + txt); return; }
    if (det && moves(v, true) != moves(ts, true)) { c.fail("merging branches with precise clocks changes the deterministic location " + txt); return; }
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) if ((q[i] & q[j]).any()) { c.fail("merging branches with precise clocks leaves overlapping transitions in " + txt); return; }
  }
}
// ----- C17 -----
using Val = std::vector<double>;
static Val assigned(const Rs &r, const Val &v) { Val o = v; for (auto &[x, s] : r) o[x] = s.index() ? v[std::get<ClockVariables>(s)] : std::get<double>(s); return o; }
static std::string show(const Rs &r) { std::ostringstream o; for (auto &[x, s] : r) { o << (o.str().empty() ? "" : ",") << char('x' + x) << ":="; if (s.index()) o << char('x' + std::get<ClockVariables>(s)); else o << std::get<double>(s); } return "{" + o.str() + "}"; }
struct Assigns {                        // every clock: kept / 0 / 1 / 1.5 / copy of any clock (also itself); in any order
  int n; std::vector<double> cs{0, 1, 1.5}; std::vector<std::vector<int>> perms;
  explicit Assigns(int n_) : n(n_) { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; do perms.push_back(p); while (std::next_permutation(p.begin(), p.end())); }
  int opt() const { return 1 + (int) cs.size() + n; }
  u64 total() const { u64 t = perms.size(); for (int i = 0; i < n; ++i) t *= opt(); return t; }
  Rs make(u64 i) const { auto &p = perms[i % perms.size()]; i /= perms.size(); std::vector<int> ch; for (int k = 0; k < n; ++k) { ch.push_back(i % opt()); i /= opt(); } Rs r; for (int k : p) { int o = ch[k]; if (!o) continue; if (o <= (int) cs.size()) r.push_back({(ClockVariables) k, cs[o - 1]}); else r.push_back({(ClockVariables) k, (ClockVariables) (o - 1 - cs.size())}); } return r; }
};
static void assigns(const Rs &l, const Rs &r, int n, Case &c) {
  c.key("assignments " + show(l) + " after " + show(r)); c.states(); c.transitions(5); c.traces(); c.nontrivial();
  Val v; for (int i = 0; i < n; ++i) v.push_back(7.25 + 3 * i);
  auto eq = [&](const Rs &a, const Val &want, const std::string &what) { std::set<int> k; for (auto &p : a) if (!k.insert(p.first).second) { c.fail(what + " assigns a clock twice: " + show(a)); return false; } if (assigned(a, v) != want) { c.fail(what + " is " + show(a)); return false; } return true; };
  if (!eq(composition(l, r), assigned(l, assigned(r, v)), "composition of " + show(l) + " after " + show(r))) return;
  Val d = assigned(r, v); { auto m = asMap(l); for (auto &[x, s] : m) d[x] = s.index() ? v[std::get<ClockVariables>(s)] : std::get<double>(s); }
  if (!eq(addDefault(l, r), d, show(l) + " with defaults " + show(r))) return;
  if (!eq(clean(l), assigned(l, v), "cleaned " + show(l))) return;
  for (auto &[x, s] : clean(l)) if (s.index() && std::get<ClockVariables>(s) == x) { c.fail("clean keeps an identity in " + show(l)); return; }
  auto m = asMap(l); if (m.size() != l.size()) { c.fail("map of " + show(l)); return; } for (auto &[x, s] : l) if (!m.count(x) || m.at(x) != s) { c.fail("map of " + show(l)); return; }
  // keep what is precise, otherwise take the other's precise value
  auto precise = [](const std::variant<double, ClockVariables> &s) { return s.index() == 0 && std::get<double>(s) == std::floor(std::get<double>(s)); };
  auto lm = asMap(l), rm = asMap(r);
  for (int form = 0; form < 2; ++form) {
    TATransition t; t.resetVars = l; if (form) t.addPreciseAssignments(r); else t.addPreciseConstantAssignments(r);
    auto got = asMap(t.resetVars); std::unordered_map<ClockVariables, std::variant<double, ClockVariables>> want = lm;
    for (auto &[x, s] : r) { auto it = lm.find(x); if (it != lm.end() && precise(it->second)) continue; if (precise(s) || (form && s.index() == 1)) want[x] = s; }
    if (got != want || got.size() != t.resetVars.size()) { c.fail("adding precise assignments of " + show(r) + " to " + show(l) + " gives " + show(t.resetVars)); return; }
  }
  size_t ic = 0, ia = 0; for (auto &[x, s] : l) { if (s.index() == 0 && !precise(s)) ++ic; if (s.index() == 1 || !precise(s)) ++ia; }
  if (TATransition::impreciseConstantAssignSize(l) != ic || TATransition::impreciseAssignSize(l) != ia) { c.fail("number of imprecise assignments of " + show(l)); return; }
  if (c.idx % 9973 == 3) c.sample(show(l) + " o " + show(r) + " = " + show(composition(l, r)));
}
void mc::Driver::setup(mc::Driver &d) {
  bool th = d.thorough();
  d.assumptions = {"guards have no diagonal constraints: one valuation per combination of integer / open unit interval decides every guard"};
  d.statesMean = "inputs enumerated"; d.transMean = "operations executed"; d.tracesMean = "valuations on which the result is compared";
  static Grid g22(2, 2), g31(3, 1), g14(1, 4), g21(2, 1), g13(1, 3);
  if (d.prop == "C14") {
    { static Lists l(2, 2, 1); static u64 n = l.m.size(); d.add("constraints", n * n, "all pairs of constraints over 2 clocks, constants <= 2", [](u64 i, Case &c) { one(g22, l.m[i % n], l.m[i / n], c); }); }
    { static Lists l(2, 2, th ? 4 : 3); d.add("lists-2clk", l.total(), "all ordered lists of <= " + std::to_string(l.len) + " constraints over 2 clocks, constants <= 2", [](u64 i, Case &c) { list(g22, l.make(i), c); }); }
    { static Lists l(3, 1, 3); d.add("lists-3clk", l.total(), "all ordered lists of <= 3 constraints over 3 clocks, constants <= 1", [](u64 i, Case &c) { list(g31, l.make(i), c); }); }
    { static Lists l(4, 1, 2); static Grid g41(4, 1); d.add("lists-4clk", l.total(), "all ordered lists of <= 2 constraints over 4 clocks, constants <= 1", [](u64 i, Case &c) { list(g41, l.make(i), c); }); static u64 n = l.total(); d.add("pairs-4clk", n * l.m.size(), "all pairs of a list of <= 2 constraints and a constraint over 4 clocks, constants <= 1", [](u64 i, Case &c) { pair(g41, l.make(i % n), {l.m[i / n]}, false, c); }); }
    { static Lists l(1, 4, 3); d.add("lists-1clk", l.total(), "all ordered lists of <= 3 constraints over 1 clock, constants <= 4", [](u64 i, Case &c) { list(g14, l.make(i), c); }); }
    { static Lists l(2, 2, 2); static u64 n = l.total(); d.add("pairs", n * n, "all pairs of lists of <= 2 constraints over 2 clocks, constants <= 2", [](u64 i, Case &c) { pair(g22, l.make(i % n), l.make(i / n), false, c); }); }
    { static Boxes b(2, 2); static u64 n = b.total(); d.add("pairs-boxes", n * n, "all pairs of products of two intervals, constants <= 2", [](u64 i, Case &c) { pair(g22, b.make(i % n), b.make(i / n), true, c); }); }
    { static Boxes b(1, 4); static u64 n = b.total(); d.add("pairs-intervals", n * n, "all pairs of intervals, constants <= 4", [](u64 i, Case &c) { pair(g14, b.make(i % n), b.make(i / n), true, c); }); }
    { static Boxes b(3, 1); static u64 n = b.total(); d.add("pairs-boxes-3", n * n, "all pairs of products of three intervals, constants <= 1", [](u64 i, Case &c) { pair(g31, b.make(i % n), b.make(i / n), true, c); }); }
    { static Lists l(2, 2, 2); static u64 n = l.total() - 1; d.add("negate-2", n * n, "negation of all disjunctions of two guards of 1-2 constraints over 2 clocks, constants <= 2", [](u64 i, Case &c) { neg(g22, {l.make(1 + i % n), l.make(1 + i / n)}, c); }); }
    { static Boxes b(2, 1); static u64 n = b.total() - 1; d.add("negate-3", n * n * n, "negation of all disjunctions of three products of intervals over 2 clocks, constants <= 1", [](u64 i, Case &c) { neg(g21, {b.make(1 + i % n), b.make(1 + i / n % n), b.make(1 + i / n / n)}, c); }); }
    { static Boxes b(1, 3); static u64 n = b.total() - 1; d.add("negate-3-1clk", n * n * n, "negation of all disjunctions of three intervals, constants <= 3", [](u64 i, Case &c) { neg(g13, {b.make(1 + i % n), b.make(1 + i / n % n), b.make(1 + i / n / n)}, c); }); }
    { static Boxes b(1, 2); static u64 n = b.total() - 1; d.add("negate-4-1clk", n * n * n * n, "negation of all disjunctions of four intervals, constants <= 2", [](u64 i, Case &c) { neg(g14, {b.make(1 + i % n), b.make(1 + i / n % n), b.make(1 + i / n / n % n), b.make(1 + i / n / n / n)}, c); }); }
    { static Lists l(3, 1, 3); static u64 n = l.total() - 1; d.add("negate-1", n, "negation of all guards of <= 3 constraints over 3 clocks", [](u64 i, Case &c) { neg(g31, {l.make(1 + i)}, c); }); }
  } else if (d.prop == "C15") {
    static auto run = [](const Grid &gr, const std::vector<G> &gs, u64 lab, Case &c) {
      TAState t0(true), t1(true), t2(true); const TAState *tg[3] = {&t0, &t1, &t2}; TAState *tw[3] = {&t0, &t1, &t2};
      std::vector<TATransition> ts; std::string txt; static const Rs rs[2] = {{}, {{0, 0.0}}};
      for (auto &g : gs) { int t = lab % 2, r = lab / 2 % 2; lab /= 4; ts.emplace_back(tw[t], rs[r], g); txt += (txt.empty() ? "" : "; ") + show(g) + "->" + std::to_string(t) + (r ? " x:=0" : ""); }
      location(gr, ts, tg, txt, c);
    };
    { static Boxes b(1, 2); static u64 n = b.total(); d.add("three-1clk", n * n * n * 16, "three transitions guarded by any intervals (constants <= 2) x two targets / two assignments", [](u64 i, Case &c) { u64 l = i % 16; i /= 16; run(g14, {b.make(i % n), b.make(i / n % n), b.make(i / n / n)}, l << 2, c); }); }
    { static Boxes b(1, 4); static u64 n = b.total(); d.add("three-1clk-4", n * n * n, "three transitions guarded by any intervals, constants <= 4", [](u64 i, Case &c) { run(g14, {b.make(i % n), b.make(i / n % n), b.make(i / n / n)}, (i * 7) % 64, c); }); }
    { static Boxes b(2, 2); static u64 n = b.total(); d.add("two-2clk", n * n * 4, "two transitions guarded by products of intervals over 2 clocks, constants <= 2", [](u64 i, Case &c) { u64 l = i % 4; i /= 4; run(g22, {b.make(i % n), b.make(i / n)}, l << 2, c); }); }
    { static Boxes b(2, 1); static u64 n = b.total(); d.add("three-2clk", n * n * n, "three transitions guarded by products of intervals over 2 clocks, constants <= 1", [](u64 i, Case &c) { run(g21, {b.make(i % n), b.make(i / n % n), b.make(i / n / n)}, (i * 5) % 64, c); }); }
    { static Lists l(2, 1, 2); static u64 n = l.total(); d.add("raw", n * n, "two transitions guarded by any lists of <= 2 constraints over 2 clocks (also unsatisfiable or redundant)", [](u64 i, Case &c) { run(g21, {l.make(i % n), l.make(i / n)}, (i * 11) % 16, c); }); }
    { static Boxes b(1, 1); static u64 n = b.total(); d.add("four-1clk-1", n * n * n * n, "four transitions guarded by intervals, constants <= 1", [](u64 i, Case &c) { run(g14, {b.make(i % n), b.make(i / n % n), b.make(i / n / n % n), b.make(i / n / n / n)}, (i * 13) % 256, c); }); }
    if (th) { static Boxes b(1, 2); static u64 n = b.total(); d.add("four-1clk", n * n * n * n, "four transitions guarded by intervals, constants <= 2", [](u64 i, Case &c) { run(g14, {b.make(i % n), b.make(i / n % n), b.make(i / n / n % n), b.make(i / n / n / n)}, (i * 13) % 256, c); }); }
  } else {
    d.assumptions = {"an assignment lists every clock at most once"};
    d.statesMean = "pairs of assignments"; d.transMean = "operations executed"; d.tracesMean = "composites compared by their effect on a generic valuation";
    { static Assigns a(2); static u64 n = a.total(); d.add("pairs-2clk", n * n, "all pairs of assignments to 2 clocks (kept, 0, 1, 1.5, copies), listed in any order", [](u64 i, Case &c) { assigns(a.make(i % n), a.make(i / n), 2, c); }); }
    { static Assigns a(3); static u64 n = a.total(), m = n / a.perms.size(); d.add("pairs-3clk", n * m, "all pairs of assignments to 3 clocks, one of them listed in any order", [](u64 i, Case &c) { assigns(a.make(i % n), a.make((i / n) * a.perms.size()), 3, c); }); }
  }
}
MC_MAIN("C14")
