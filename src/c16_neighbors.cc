// C16 neighbour conditions of imprecise clocks; C35 relaxing guards for imprecise clocks; C36 transitions made of pairs of conditions
#include "mc.hh"
#include "conds.hh"
#include "conv.hh"
#include "gen.hh"
#include "imprecise_clock_handler.hh"
#include "internal_transition_maker.hh"
#include "external_transition_maker.hh"
using namespace learnta; using mc::Case; using mc::u64; using dbm::D; using rs::Pt; using rs::Space;
using Ids = std::set<int>;
static std::string show(const Pt &p, int Q) { std::string s = "("; for (size_t i = 0; i < p.size(); ++i) s += (i ? "," : "") + std::to_string(p[i]) + "/" + std::to_string(Q); return s + ")"; }
static std::string show(const Ids &p) { std::string s = "{"; for (int i : p) s += (s.size() > 1 ? "," : "") + std::string("x") + std::to_string(i); return s + "}"; }
static int box(int v, int Q) { return v % Q ? 2 * (v / Q) + 1 : 2 * (v / Q); }                  // the unit interval of one clock
static int rel(int a, int b, int Q) { int x = a - b, f = ((x % Q) + Q) % Q, fl = (x - f) / Q; return f ? 2 * fl + 1 : 2 * fl; }
static Pt later(const Pt &p, int Q) { bool any = false; int hi = 0; for (int v : p) { any |= v % Q == 0; hi = std::max(hi, v % Q); } std::vector<long long> l; for (int v : p) l.push_back(any ? 2ll * v + 1 : 2ll * (v + Q - hi)); return rs::canon(l, 2 * Q, Q); }
static Pt extend(const Pt &p, int Q) { std::vector<long long> l(p.begin(), p.end()); l.push_back(0); return rs::canon(l, Q, Q + 1); }
// the possible regions of the clocks when only those in `precise` are known
struct Ref {
  Pt o; Ids P; std::set<Pt> N; int n, Q;
  bool same(const Pt &p) const { for (int i : P) if (box(p[i], Q) != box(o[i], Q)) return false; return true; }
  bool past(const Pt &p) const { for (int i : P) if (box(p[i], Q) > box(o[i], Q)) return true; return false; }
  void close() { if (P.empty()) return; std::set<Pt> r; for (Pt p : N) for (int k = 0; k < 1000 && !past(p); ++k) { if (same(p)) r.insert(p); p = later(p, Q); } N = r; }
  Ref(const Pt &o_, const Ids &P_) : o(o_), P(P_), n((int) o_.size()), Q(n + 1) {
    int M = 0; for (int v : o) M = std::max(M, (v + Q - 1) / Q);
    const Space &sp = tc::space(n, M);
    for (auto &p : sp.pts) { bool ok = true; for (int i = 0; ok && i < n; ++i) { ok = box(p[i], Q) == box(o[i], Q); for (int j = i + 1; ok && j < n; ++j) if (P.count(i) == P.count(j)) ok = rel(p[i], p[j], Q) == rel(o[i], o[j], Q); } if (ok) N.insert(p); }
    for (int i = 0; i < n; ++i) if (o[i] % Q == 0) P.insert(i);
    close();
  }
  void step() { o = later(o, Q); close(); }
  void act() { o = extend(o, Q); std::set<Pt> r; for (auto &p : N) r.insert(extend(p, Q)); N = r; P.insert(n); ++n; ++Q; }
  std::pair<int, int> hull(int i) const { int a = 1 << 20, b = -1; for (auto &p : N) { a = std::min(a, box(p[i], Q)); b = std::max(b, box(p[i], Q)); } return {a, b}; }
  bool operator<(const Ref &r) const { return std::tie(o, P, N) < std::tie(r.o, r.P, r.N); }
};
static bool sat(const std::vector<Constraint> &g, int x, int b) { for (auto &c : g) if (c.x == x) { int k = 2 * c.c; bool ok = c.odr == Constraint::Order::lt ? b < k : c.odr == Constraint::Order::le ? b <= k : c.odr == Constraint::Order::gt ? b > k : b >= k; if (!ok) return false; } return true; }
static bool isBox(const std::vector<Constraint> &g, int n, std::function<std::pair<int, int>(int)> want, int top, std::string &why) {
  for (auto &c : g) if (c.x >= n) { why = "it speaks of a clock that does not exist"; return false; }
  for (int i = 0; i < n; ++i) { auto [a, b] = want(i); for (int k = 0; k <= top; ++k) if (sat(g, i, k) != (k >= a && k <= b)) { why = "clock x" + std::to_string(i) + " at " + std::to_string(k / 2) + (k % 2 ? ".5" : "") + " is " + (sat(g, i, k) ? "allowed" : "not allowed"); return false; } }
  return true;
}
static std::string txt(const std::vector<Constraint> &g) { std::ostringstream o; o << g; return o.str(); }
static bool agree(const NeighborConditions &l, const Ref &r, Case &c, const std::string &what) {
  c.traces(); std::string why; int top = 0; for (auto &p : r.N) for (int v : p) top = std::max(top, 2 * (v / r.Q) + 6);
  auto bad = [&](const std::string &m) { c.fail(what + ": " + m); return false; };
  if ((int) l.getClockSize() != r.n) return bad("has " + std::to_string(l.getClockSize()) + " clocks");
  auto og = l.toOriginalGuard(); if (!isBox(og, r.n, [&](int i) { int b = box(r.o[i], r.Q); return std::make_pair(b, b); }, top, why)) return bad("wrong guard " + txt(og) + " of the original: " + why);
  auto rg = l.toRelaxedGuard(); if (!isBox(rg, r.n, [&](int i) { return r.hull(i); }, top, why)) return bad("wrong relaxed guard " + txt(rg) + ": " + why);
  auto v = l.toOriginalValuation(); if ((int) v.size() != r.n) return bad("valuation of a wrong size"); std::vector<long long> q; for (double d : v) q.push_back(std::llround(d * (1 << 20))); if (rs::canon(q, 1 << 20, r.Q) != r.o) return bad("the valuation lies outside the original");
  if (l.toOriginalValuation(r.n + 2).size() != (size_t) r.n + 2) return bad("padded valuation of a wrong size");
  std::vector<ClockVariables> im; for (int i = 0; i < r.n; ++i) if (!r.P.count(i)) im.push_back(i); if (l.impreciseClocks() != im) return bad("wrong imprecise clocks");
  if (l.precise() != (r.N.size() == 1)) return bad(std::string("claims to be ") + (l.precise() ? "precise" : "imprecise") + " with " + std::to_string(r.N.size()) + " possible regions");
  if (r.N.size() > 1) c.nontrivial();
  for (int i = 0; i < r.n; ++i) for (int k = 0; k <= top / 2; ++k) { using O = Constraint::Order; for (O od : {O::lt, O::le, O::gt, O::ge}) { std::vector<Constraint> g{Constraint{(ClockVariables) i, od, k}}; if (l.match(g) != sat(g, i, box(r.o[i], r.Q)) && !(k == 0 && od == O::ge)) return bad("matching with " + txt(g) + " is " + std::to_string(l.match(g))); } }
  return true;
}
static ForwardRegionalElementaryLanguage langOf(const Pt &p, int Q, const std::string &w) { return ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w, tc::durations(tc::real(p, Q))}); }
static std::unordered_set<ClockVariables> ids(const Ids &P) { return {P.begin(), P.end()}; }
static void walks(const Pt &p, int Q, Ids P, int depth, int maxClk, Case &c) {
  std::string w; for (size_t i = 0; i + 1 < p.size(); ++i) w += "ab"[i % 2]; std::string nm = "clocks " + show(p, Q) + " precise " + show(P); c.key(nm);
  NeighborConditions l{langOf(p, Q, w), ids(P)}; Ref r(p, P); c.states();
  { NeighborConditions m{langOf(p, Q, w), std::vector<ClockVariables>(P.begin(), P.end())}; if (m != l) return c.fail(nm + ": a list of precise clocks gives other neighbours than a set"); if (m.hash_value() != l.hash_value() && false) return; }
  if (!agree(l, r, c, nm)) return;
  std::function<bool(const NeighborConditions &, const Ref &, int, std::string)> go = [&](const NeighborConditions &a, const Ref &b, int d, std::string t) {
    if (!d) return true;
    if (!b.P.empty()) { auto s = a.successor(); auto x = b; x.step(); c.transitions(); if (!agree(s, x, c, nm + t + " time")) return false; auto y = a; y.successorAssign(); if (y != s) { c.fail(nm + t + ": successorAssign differs from successor"); return false; } if (!go(s, x, d - 1, t + " time")) return false; }
    if (b.n < maxClk) { auto s = a.successor('a'); auto x = b; x.act(); c.transitions(); if (!agree(s, x, c, nm + t + " action")) return false; if (!go(s, x, d - 1, t + " action")) return false; }
    if (d > 1) for (int i = 0; i < b.n; ++i) { Ids K; for (int k = 0; k < b.n; ++k) if (k != i) K.insert(k); auto k2 = K; k2.insert(b.n + 3); auto s = a.reconstruct(ids(k2)); Ref x(b.o, K); c.transitions(); if (!agree(s, x, c, nm + t + " knowing only " + show(K))) return false; }
    return true; };
  go(l, r, depth, "");
}
// ----- after a transition
struct Asg { int x; bool copy; int v; };
static TATransition::Resets lib(const std::vector<Asg> &a) { TATransition::Resets r; for (auto &x : a) { if (x.copy) r.emplace_back((ClockVariables) x.x, (ClockVariables) x.v); else r.emplace_back((ClockVariables) x.x, (double) x.v); } return r; }
static std::vector<int> apply(const Pt &p, int Q, const std::vector<Asg> &a, int m) { std::vector<int> v(p.begin(), p.end()); v.resize(std::max<size_t>(m, p.size()), -1); for (auto &x : a) if (x.x < (int) v.size()) v[x.x] = x.copy ? p[x.v] : x.v * Q; v.resize(m); return v; }
static Ids preciseAfter(const Ids &P, const std::vector<Asg> &a, int m) { Ids r; for (int i = 0; i < m; ++i) { const Asg *x = nullptr; for (auto &y : a) if (y.x == i) x = &y; if (x ? !x->copy || P.count(x->v) : P.count(i)) r.insert(i); } return r; }
static std::vector<Constraint> boxGuard(const std::vector<int> &b, int cap) { std::vector<Constraint> g; using O = Constraint::Order; for (size_t i = 0; i < b.size(); ++i) { ClockVariables x = (ClockVariables) i; int k = b[i] / 2; if (b[i] % 2) { g.push_back(Constraint{x, O::gt, k}); if (b[i] < cap) g.push_back(Constraint{x, O::lt, k + 1}); } else { g.push_back(Constraint{x, O::ge, k}); g.push_back(Constraint{x, O::le, k}); } } return g; }
static void after(const Pt &p, int Q, Ids P, int m, const std::vector<std::vector<Asg>> &menu, Case &c) {
  int n = (int) p.size(); std::string w(n - 1, 'a'), nm = "clocks " + show(p, Q) + " precise " + show(P); NeighborConditions l{langOf(p, Q, w), ids(P)}; Ref r(p, P); c.states(); c.key(nm);
  auto t = std::make_shared<TAState>(false); { std::vector<int> b(m, 0); auto g = boxGuard(b, 99); t->next['a'].emplace_back(t.get(), TATransition::Resets{}, g); }
  // what is known after a transition; an assigned constant that is no integer leaves the clock imprecise
  for (auto &a : menu) for (unsigned half = 0; half < (1u << a.size()); ++half) {
    bool ok = true; for (size_t k = 0; k < a.size(); ++k) ok &= !(half >> k & 1) || !a[k].copy; if (!ok) continue;
    auto z = lib(a); Ids K = preciseAfter(r.P, a, m); for (size_t k = 0; k < a.size(); ++k) if (half >> k & 1) { z[k].second = a[k].v + 0.5; K.erase(a[k].x); }
    TATransition tr{t.get(), z, {}}; c.transitions(); auto g = l.preciseClocksAfterReset(tr), h = NeighborConditions::preciseClocksAfterReset(ids(r.P), tr);
    if (Ids(g.begin(), g.end()) != K || Ids(h.begin(), h.end()) != K) { std::string tx; for (size_t k = 0; k < a.size(); ++k) tx += " x" + std::to_string(a[k].x) + ":=" + (a[k].copy ? "x" : "") + std::to_string(a[k].v) + (half >> k & 1 ? ".5" : ""); return c.fail(nm + " after" + tx + ": wrong precise clocks " + show(Ids(g.begin(), g.end())) + ", expected " + show(K)); }
  }
  for (auto &a : menu) {
    auto v = apply(p, Q, a, m); bool ok = true; for (int i = 0; i < m; ++i) ok &= v[i] >= 0 && (!i || v[i] <= v[i - 1]); if (!ok) continue; c.transitions();
    TATransition tr{t.get(), lib(a), {}}; std::string tx = nm + " after"; for (auto &x : a) tx += " x" + std::to_string(x.x) + ":=" + (x.copy ? "x" : "") + std::to_string(x.v);
    Ids K = preciseAfter(r.P, a, m); auto g = l.preciseClocksAfterReset(tr); if (Ids(g.begin(), g.end()) != K) return c.fail(tx + ": wrong precise clocks " + show(Ids(g.begin(), g.end())) + ", expected " + show(K));
    std::vector<long long> q(v.begin(), v.end()); Pt np = rs::canon(q, Q, m + 1); auto s = l.makeAfterTransition('a', tr);
    if (!agree(s, Ref(np, K), c, tx)) return;
    auto e = ImpreciseClockHandler::embedIfImprecise(tr.resetVars, ids(K), s.toOriginalValuation()); std::map<int, int> cnt; for (auto &z : e) ++cnt[z.first];
    auto ov = s.toOriginalValuation();
    for (int i = 0; i < m; ++i) { const std::pair<ClockVariables, std::variant<double, ClockVariables>> *z = nullptr; for (auto &y : e) if (y.first == i) z = &y; const Asg *x = nullptr; for (auto &y : a) if (y.x == i) x = &y;
      if (cnt[i] > 1) return c.fail(tx + ": the embedded assignment sets x" + std::to_string(i) + " twice");
      if (!K.count(i)) { if (!z || z->second.index() != 0 || std::get<double>(z->second) != ov[i]) return c.fail(tx + ": the imprecise clock x" + std::to_string(i) + " is not fixed"); }
      else if (!x) { if (z) return c.fail(tx + ": the untouched precise clock x" + std::to_string(i) + " is assigned"); }
      else if (!z || (x->copy ? z->second.index() != 1 || std::get<ClockVariables>(z->second) != x->v : z->second.index() != 0 || std::get<double>(z->second) != x->v)) return c.fail(tx + ": the assignment of the precise clock x" + std::to_string(i) + " is lost"); }
    for (auto &z : cnt) if (z.first >= m && std::none_of(a.begin(), a.end(), [&](auto &y) { return y.x == z.first; })) return c.fail(tx + ": assigns a clock that does not exist");
  }
}
// ----- C35: two locations, every box of the two clocks has its own transition
template<int NB> static void relax(u64 i, Case &c) {
  static const std::vector<std::vector<Asg>> rm{{}, {{0, false, 0}}, {{1, false, 0}}, {{0, true, 1}}};
  gen::Digits d(i); const int cap = NB - 1; int st0 = d.take(3);
  static const Space &sp = tc::space(2, 1); static std::vector<Pt> starts; if (starts.empty()) for (auto &p : sp.pts) if (tc::mono(p)) starts.push_back(p);
  struct T { int tgt; std::vector<Asg> a; }; T tr[2][NB][NB]; for (int s = 0; s < 2; ++s) for (int a = 0; a < NB; ++a) for (int b = 0; b < NB; ++b) tr[s][a][b] = {s, rm[(a + b) % 2 ? 0 : 2]};
  int b0 = d.take(NB * NB), o0 = d.take(8), b1 = d.take(NB * NB), o1 = d.take(8); tr[0][b0 / NB][b0 % NB] = {o0 % 2, rm[o0 / 2]}; int s1 = st0 == 2 ? 1 : 0; tr[s1][b1 / NB][b1 % NB] = {o1 % 2, rm[o1 / 2]};
  c.key("boxes " + std::to_string(b0) + ":" + std::to_string(o0) + " " + std::to_string(s1) + "/" + std::to_string(b1) + ":" + std::to_string(o1));
  for (auto &p : starts) for (int pc = 0; pc < 2; ++pc) {
    Ref r0(p, {pc}); Ids K{pc}; bool isImp = p[1 - pc] % 3 != 0 && p[pc] % 3 != 0; RenamingRelation ren; ren.emplace_back(0, pc); auto lang = langOf(p, 3, "a"); if (ren.hasImpreciseClocks(lang.getTimedCondition()) != isImp) return c.fail("wrong notion of imprecise clocks at " + show(p, 3)); if (!isImp) continue;
    std::vector<std::shared_ptr<TAState>> S{std::make_shared<TAState>(false), std::make_shared<TAState>(true)};
    for (int s = 0; s < 2; ++s) if (o1 % 2) S[s]->next['b']; for (int s = 0; s < 2; ++s) for (int a = 0; a < NB; ++a) for (int b = 0; b < NB; ++b) S[s]->next['a'].emplace_back(S[tr[s][a][b].tgt].get(), lib(tr[s][a][b].a), boxGuard({a, b}, cap));
    for (int s = 0; s < 2; ++s) { S[s]->next['b'].emplace_back(S[1 - s].get(), TATransition::Resets{}, std::vector<Constraint>{}); }
    int start = st0 == 1; ImpreciseClockHandler h; h.push(S[start].get(), ren, lang); h.run(); c.states();
    for (int s = 0; s < 2; ++s) { auto &v = S[s]->next.at('a'); if (S[s]->next.size() != 2 || v.size() < NB * NB) return c.fail("transitions were removed"); auto &w = S[s]->next.at('b'); if (w.size() != 1 || w[0].target != S[1 - s].get() || !w[0].guard.empty() || !w[0].resetVars.empty()) return c.fail("the transition without a guard, which cannot be widened, was changed"); for (int k = 0; k < NB * NB; ++k) { auto &t = tr[s][k / NB][k % NB]; if (v[k].target != S[t.tgt].get() || v[k].resetVars != lib(t.a) || v[k].guard != boxGuard({k / NB, k % NB}, cap)) return c.fail("an existing transition was changed"); } }
    // every delay of the original from the entry, and every entry reached through it
    std::set<std::pair<int, Ref>> seen; std::vector<std::pair<int, Ref>> todo{{start, r0}}; std::vector<std::set<size_t>> just(2);
    std::string nm = "from location " + std::to_string(start) + " at " + show(p, 3) + " knowing " + show(K);
    while (!todo.empty()) { auto [s, r] = todo.back(); todo.pop_back(); if (!seen.emplace(s, r).second) continue;
      for (int k = 0; k < 40; ++k) { int a = std::min(box(r.o[0], r.Q), cap), b = std::min(box(r.o[1], r.Q), cap); auto &t = tr[s][a][b]; auto &v = S[s]->next.at('a'); bool bounded = a < cap || b < cap; c.transitions();
        // the box of all possible values, without upper bounds when the matched guard has none
        int lo[2], hi[2]; for (int x = 0; x < 2; ++x) { auto q = r.hull(x); lo[x] = q.first; hi[x] = bounded ? q.second : 99; }
        int glo[2] = {a, b}, ghi[2] = {a == cap ? 99 : a, b == cap ? 99 : b}; bool wider = true, strict = false; for (int x = 0; x < 2; ++x) { wider &= lo[x] <= glo[x] && hi[x] >= ghi[x]; strict |= lo[x] < glo[x] || hi[x] > ghi[x]; }
        if (wider && strict) { c.nontrivial(); c.traces(); Ids K2 = preciseAfter(r.P, t.a, 2); auto nv = apply(r.o, r.Q, t.a, 2);
          if (nv[1] <= nv[0]) { 
            auto it = std::find_if(v.begin(), v.end(), [&](auto &x) { std::string why; return x.target == S[t.tgt].get() && isBox(x.guard, 2, [&](int y) { return std::make_pair(lo[y], hi[y]); }, 12, why) && [&] { for (int y = 0; y < 2; ++y) { int cnt = 0; const TATransition::Resets::value_type *z = nullptr; for (auto &q : x.resetVars) if (q.first == y) { ++cnt; z = &q; } if (cnt > 1) return false; const Asg *o = nullptr; for (auto &q : t.a) if (q.x == y) o = &q; if (!K2.count(y)) { if (!z || z->second.index()) return false; double e = std::get<double>(z->second); int f = (int) e, bb = e == f ? 2 * f : 2 * f + 1; if (bb != box(nv[y], r.Q)) return false; } else if (o ? !z || (o->copy ? z->second.index() != 1 || std::get<ClockVariables>(z->second) != o->v : z->second.index() || std::get<double>(z->second) != o->v) : z != nullptr) return false; } return true; }(); });
            if (it == v.end()) return c.fail(nm + ": no relaxed transition for location " + std::to_string(s) + " at original " + show(r.o, r.Q) + " knowing " + show(r.P));
            just[s].insert(it - v.begin()); std::vector<long long> q(nv.begin(), nv.end()); Ref nx(rs::canon(q, r.Q, 3), K2); if (!K2.empty() && nx.N.size() > 1) todo.emplace_back(t.tgt, nx); }
        }
        if (!bounded) break; r.step();
      } }
    // nothing else: an added transition widens an existing one of the same target
    for (int s = 0; s < 2; ++s) { auto &v = S[s]->next.at('a'); for (size_t k = NB * NB; k < v.size(); ++k) { bool ok = false; for (int g = 0; g < NB * NB && !ok; ++g) { if (v[g].target != v[k].target) continue; ok = true; for (int x = 0; x < 2; ++x) for (int b = 0; b <= 12; ++b) if (sat(v[g].guard, x, b) && !sat(v[k].guard, x, b)) ok = false; } if (!ok) return c.fail(nm + ": an added transition widens none with its target: " + txt(v[k].guard)); for (auto &z : v[k].resetVars) if (z.first > 1) return c.fail("an added transition assigns a new clock"); } }
  }
}
// ----- C36
static D region(const Pt &p, int Q) { D r((int) p.size()); auto v = [&](int i) { return i ? p[i - 1] : 0; }; for (int i = 0; i <= r.n; ++i) for (int j = 0; j <= r.n; ++j) if (i != j) { int x = v(i) - v(j), f = ((x % Q) + Q) % Q, fl = (x - f) / Q; r.at(i, j) = f ? 2 * (fl + 1) : 2 * fl + 1; } return r; }
static void internalMaker(const std::vector<Pt> &ps, int Q, u64 i, Case &c) {
  gen::Digits d(i); size_t k = ps.size(); int cnt = 3; std::vector<std::shared_ptr<TAState>> S{std::make_shared<TAState>(false), std::make_shared<TAState>(true)}; InternalTransitionMaker m; if (!m.empty() || m.size()) return c.fail("a new maker is not empty");
  std::map<const TAState *, std::vector<Pt>> want; std::string nm; for (int q = 0; q < cnt; ++q) { int s = d.take(2); auto &p = ps[d.take(k)]; m.add(S[s], TimedCondition(tc::real(p, Q))); want[S[s].get()].push_back(p); nm += " " + std::to_string(s) + show(p, Q); } c.key("internal" + nm); c.states();
  auto v = m.make(); c.transitions(v.size()); c.traces(); c.nontrivial(); if (m.size() != want.size() || m.empty()) return c.fail("wrong number of targets");
  std::map<const TAState *, std::vector<int>> used; for (auto &w : want) used[w.first].assign(w.second.size(), 0);
  for (auto &t : v) { if (!want.count(t.target)) return c.fail("a transition to a state never added"); auto &w = want[t.target]; bool hit = false; std::string why; for (size_t q = 0; q < w.size(); ++q) if (isBox(t.guard, (int) w[q].size(), [&](int x) { int b = box(w[q][x], Q); return std::make_pair(b, b); }, 12, why)) { used[t.target][q] = 1; hit = true; int n = (int) w[q].size(); if (t.resetVars.size() != 1 || t.resetVars[0].first != n || t.resetVars[0].second.index() || std::get<double>(t.resetVars[0].second)) return c.fail("the assignment is not the fresh clock to 0"); } if (!hit) return c.fail("a transition with a guard that was not added: " + txt(t.guard)); }
  for (auto &w : used) for (int u : w.second) if (!u) return c.fail("no transition for an added condition");
}
// the zone of all pairs of valuations in the two regions that satisfy the relation, over n + m clocks
static D joint(const D &a, const D &b, const RenamingRelation &r) {
  int n = a.n, m = b.n; D e(n + m); for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) if (i != j) e.at(i, j) = a.at(i, j); for (int i = 0; i <= m; ++i) for (int j = 0; j <= m; ++j) if (i != j) e.at(i ? n + i : 0, j ? n + j : 0) = b.at(i, j);
  for (auto &[i, j] : r) { e.at((int) i + 1, n + (int) j + 1) = std::min(e.at((int) i + 1, n + (int) j + 1), 1); e.at(n + (int) j + 1, (int) i + 1) = std::min(e.at(n + (int) j + 1, (int) i + 1), 1); }
  return e;
}
// why the transition does not realise the step from region p to region q under the relation, or ""
static std::string realises(const TATransition &x, const Pt &p, int Qp, const Pt &q, int Qq, const RenamingRelation &r, bool *full_) {
  D e = joint(region(p, Qp), region(q, Qq), r); e.close(); int n = (int) p.size(), m = (int) q.size(); std::string why; auto vs = tc::real(p, Qp); auto X = [](int j) { return "x" + std::to_string(j); };
  if (!isBox(x.guard, n, [&](int y) { int bb = box(p[y], Qp); return std::make_pair(bb, bb); }, 12, why)) return "the guard is not the box of the source: " + why;
  std::vector<double> res(m, -1); std::vector<int> cnt(m, 0), from(m, -1); for (int j = 0; j < std::min(n, m); ++j) { res[j] = vs[j]; from[j] = j; }
  for (auto &z : x.resetVars) { if (z.first < 0 || z.first >= m) return "assigns a clock that does not exist"; ++cnt[z.first]; if (z.second.index()) { int y = std::get<ClockVariables>(z.second); if (y < 0 || y >= n) return "copies a clock that does not exist"; if (y == z.first) return "assigns a clock to itself"; res[z.first] = vs[y]; from[z.first] = y; } else { res[z.first] = std::get<double>(z.second); from[z.first] = -1; } }
  bool full = true;
  for (int j = 0; j < m; ++j) {
    if (cnt[j] > 1) return X(j) + " is assigned twice"; bool im = false, ok = false; for (int i = 0; i < n; ++i) { bool eq = e.at(i + 1, n + j + 1) == 1 && e.at(n + j + 1, i + 1) == 1; im |= eq; ok |= eq && from[j] == i; }
    bool pt = q[j] % Qq == 0; full &= im || pt; if (im && !pt && !ok) return X(j) + " does not get its related clock"; if (pt && res[j] != q[j] / Qq) return X(j) + " does not get its only value";
    if (!im && from[j] >= 0) return X(j) + " keeps an unrelated clock"; if (box((int) std::llround(res[j] * 1024), 1024) != box(q[j], Qq)) return X(j) + " gets a value outside the target"; }
  if (full) { std::vector<long long> l; for (double x1 : res) l.push_back(std::llround(x1 * (1 << 24))); if (rs::canon(l, 1 << 24, Qq) != q) return "the assignment does not lead into the target"; }
  *full_ = full; return "";
}
// pairs[0] is added for both targets, the others for the first target only
static void externalMaker(const std::vector<std::pair<Pt, Pt>> &pairs, int n, int m, Case &c) {
  const Pt &p = pairs[0].first, &q = pairs[0].second; int Qp = n + 1, Qq = m + 1; std::string nm = "source " + show(p, Qp) + " target " + show(q, Qq); c.key(nm); c.states();
  TimedCondition s(tc::real(p, Qp)), t(tc::real(q, Qq));
  { auto v = ExternalTransitionMaker::toValuation(t); if ((int) v.size() != m) return c.fail("the valuation has a wrong size"); std::vector<long long> l; for (double x : v) l.push_back(std::llround(x * (1 << 24))); if (rs::canon(l, 1 << 24, Qq) != q) return c.fail(nm + ": the valuation lies outside the target"); }
  for (u64 bits = 0; bits < (1ull << (n * m)); ++bits) {
    RenamingRelation r; std::set<int> rt; bool uniq = true; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (bits >> (i * m + j) & 1) { r.emplace_back(i, j); uniq &= rt.insert(j).second; }
    if (!uniq || !joint(region(p, Qp), region(q, Qq), r).close()) continue; c.transitions(); std::string tx = nm + " relation " + std::to_string(bits);
    auto A = std::make_shared<TAState>(false), B = std::make_shared<TAState>(true); ExternalTransitionMaker k; std::vector<std::pair<Pt, Pt>> added;
    for (auto &[u, v] : pairs) { if (std::find(added.begin(), added.end(), std::make_pair(u, v)) != added.end() || !joint(region(u, Qp), region(v, Qq), r).close()) continue; k.add(A, r, TimedCondition(tc::real(u, Qp)), TimedCondition(tc::real(v, Qq))); if (added.empty()) k.add(B, r, s, t); added.push_back({u, v}); }
    for (auto &pr : added) if (pr != pairs[0]) tx += " and " + show(pr.first, Qp) + "->" + show(pr.second, Qq);
    auto v = k.make(); c.traces(); std::vector<const TATransition *> toA, toB;
    for (auto &x : v) { if (x.target == A.get()) toA.push_back(&x); else if (x.target == B.get()) toB.push_back(&x); else return c.fail(tx + ": a transition to a state never added"); }
    if (toB.size() != 1 || toA.size() != added.size()) return c.fail(tx + ": " + std::to_string(toA.size()) + " and " + std::to_string(toB.size()) + " transitions");
    bool full = false; std::string why = realises(*toB[0], p, Qp, q, Qq, r, &full); if (!why.empty()) return c.fail(tx + ": " + why); if (full) c.nontrivial();
    std::vector<int> perm(added.size()); std::iota(perm.begin(), perm.end(), 0); bool found = false; std::string first;
    do { found = true; for (size_t i = 0; found && i < perm.size(); ++i) { why = realises(*toA[perm[i]], added[i].first, Qp, added[i].second, Qq, r, &full); if (!why.empty()) { found = false; if (first.size() < why.size() && why[0] != 't') first = why; } } } while (!found && std::next_permutation(perm.begin(), perm.end()));
    if (!found) return c.fail(tx + ": the transitions are not those of the added pairs: " + (first.empty() ? why : first));
    auto ia = ExternalTransitionMaker::inactiveClockVariables(r, t); for (int j = 0; j < m; ++j) { bool w = !rt.count(j) && q[j] % Qq; if (ia.count(j) != w || (w && (int) ia.at(j) != q[j] / Qq + 1)) return c.fail(tx + ": wrong inactive clocks"); } if (ia.size() > (size_t) m) return c.fail(tx + ": wrong inactive clocks");
  }
}
static std::vector<Pt> monos(int n, int K) { std::vector<Pt> r; for (auto &p : tc::space(n, K).pts) if (tc::mono(p)) r.push_back(p); return r; }
void mc::Driver::setup(mc::Driver &d) {
  bool th = d.thorough();
  if (d.prop == "C16") {
    d.statesMean = "initial knowledge states (region, precise clocks)"; d.transMean = "time steps, actions, transitions and changes of the precise clocks"; d.tracesMean = "knowledge states compared with the reference set of possible regions";
    auto fam = [&](int n, int K, int depth, int mc_) { static std::map<std::pair<int, int>, std::vector<Pt>> st; auto &v = st[{n, K}]; v = monos(n, K); auto *p = &v; u64 tot = v.size() << n; d.add("walk-" + std::to_string(n) + "-" + std::to_string(K), tot, "all regions of " + std::to_string(n) + " clocks at most " + std::to_string(K) + ", all sets of precise clocks, all sequences of <= " + std::to_string(depth) + " time steps and actions (at most " + std::to_string(mc_) + " clocks)", [p, n, depth, mc_](u64 i, Case &c) { Ids P; for (int k = 0; k < n; ++k) if (i >> k & 1) P.insert(k); walks((*p)[i >> n], n + 1, P, depth, mc_, c); }, 120, 8); };
    fam(1, 3, th ? 10 : 8, 3); fam(2, 2, th ? 10 : 8, 3); fam(3, 2, th ? 8 : 6, 4); fam(4, 1, th ? 7 : 5, 5); if (th) fam(3, 3, 5, 3);
    auto aft = [&](int n, int m, int K) { static std::map<std::pair<int, int>, std::vector<Pt>> st; auto &v = st[{n, K}]; v = monos(n, K); auto *p = &v; auto *menu = new std::vector<std::vector<Asg>>; int opt = 1 + 3 + n; u64 tot = 1; for (int i = 0; i < std::max(n, m); ++i) tot *= opt; for (u64 k = 0; k < tot; ++k) { gen::Digits g(k); std::vector<Asg> a; for (int x = 0; x < std::max(n, m); ++x) { int o = g.take(opt); if (o == 0) continue; if (o <= 3) a.push_back({x, false, o - 1}); else a.push_back({x, true, o - 4}); } if (k % 2) std::reverse(a.begin(), a.end()); menu->push_back(a); }
      d.add("after-" + std::to_string(n) + "-" + std::to_string(m), v.size() << n, "all regions of " + std::to_string(n) + " clocks at most " + std::to_string(K) + ", all sets of precise clocks, all assignments of constants <= 2 and copies into a location with " + std::to_string(m) + " clocks", [p, n, m, menu](u64 i, Case &c) { Ids P; for (int k = 0; k < n; ++k) if (i >> k & 1) P.insert(k); after((*p)[i >> n], n + 1, P, m, *menu, c); }, 120, 8); };
    aft(2, 1, 2); aft(2, 2, 2); aft(2, 3, 1); aft(3, 2, 1); aft(3, 3, 1); if (th) { aft(3, 3, 2); aft(3, 2, 2); }
  } else if (d.prop == "C35") {
    d.statesMean = "runs of the handler"; d.transMean = "delays at which a transition of the original is taken"; d.tracesMean = "relaxed transitions compared with the reference box and assignment"; u64 tot = 3ull * 128 * 128, step = 1; (void) step; d.add("boxes", tot, "two locations with one transition per box of two clocks (constants <= 1), any two of them with any target and one of four assignments, and a second action without guards; all starting regions at most 1, either clock precise", [](u64 i, Case &c) { relax<4>(i, c); }, 120, 32); if (th) d.add("boxes-2", 3ull * 288 * 288, "the same with constants <= 2", [](u64 i, Case &c) { relax<6>(i, c); }, 120, 32);
  } else {
    d.statesMean = "makers filled"; d.transMean = "transitions or relations made"; d.tracesMean = "made transitions compared with the conditions added";
    static auto p1 = monos(1, 2), p2 = monos(2, 1), p3 = monos(3, 1), q1 = monos(1, 3), q2 = monos(2, 2); 
    d.add("internal-1", (2 * p1.size()) * (2 * p1.size()) * (2 * p1.size()), "all triples of conditions over one clock at most 2 to two targets", [](u64 i, Case &c) { internalMaker(p1, 2, i, c); }, 60, 64);
    d.add("internal-2", (2 * p2.size()) * (2 * p2.size()) * (2 * p2.size()), "all triples of simple conditions over two clocks at most 1 to two targets", [](u64 i, Case &c) { internalMaker(p2, 3, i, c); }, 60, 64);
    auto ext = [&](const std::vector<Pt> *a, int n, const std::vector<Pt> *b, int m, const std::string &nm) { u64 A = a->size(), B = b->size(); d.add("external-" + nm, A * B, "all pairs of simple conditions over " + std::to_string(n) + " and " + std::to_string(m) + " clocks, all consistent right-unique relations, with up to two more pairs to the same target", [a, n, b, m, A, B](u64 i, Case &c) { const Pt &p = (*a)[i % A], &q = (*b)[i / A]; externalMaker({{p, q}, {(*a)[(i * 7 + 3) % A], (*b)[(i / A + 1) % B]}, {p, (*b)[(i / A + 2) % B]}}, n, m, c); }, 60, 64); };
    ext(&q1, 1, &q1, 1, "1-1"); ext(&q1, 1, &q2, 2, "1-2"); ext(&q2, 2, &q1, 1, "2-1"); ext(&q2, 2, &q2, 2, "2-2"); ext(&p3, 3, &q2, 2, "3-2"); ext(&q2, 2, &p3, 3, "2-3"); ext(&p3, 3, &p3, 3, "3-3"); static auto p32 = monos(3, 2), p41 = monos(4, 1); ext(&p32, 3, &p3, 3, "3-3-2"); ext(&p41, 4, &p2, 2, "4-2"); ext(&p2, 2, &p41, 4, "2-4"); if (th) { ext(&p32, 3, &p32, 3, "3-3-22"); ext(&p41, 4, &p3, 3, "4-3"); }
  }
}
MC_MAIN("C16")
