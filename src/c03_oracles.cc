// C03 equivalence oracle on (target, hypothesis) pairs; C28 composition of equivalence oracles
#include "mc.hh"
#include "conv.hh"
#include "gen.hh"
#include "ta_families.hh"
#include "equivalance_oracle_chain.hh"
#include "equivalence_oracle_memo.hh"
#include "equivalence_oracle_by_test.hh"
#include "equivalence_oracle_by_random_test.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "timed_automaton_runner.hh"
using namespace learnta;
using namespace gen;

// the only source of randomness of the random-test oracle becomes an enumerated input
static unsigned currentSeed = 0;
std::random_device::result_type std::random_device::_M_getval() { return currentSeed; }

static bool exactWord(const TimedWord &w, int Q, ref::Word &out) {
  out.w = w.getWord(); out.dur.clear(); bool ok = w.getDurations().size() == out.w.size() + 1;
  for (double d : w.getDurations()) { double x = d * Q; if (x != std::floor(x) || x < 0) ok = false; out.dur.push_back((long long) std::llround(x)); }
  return ok;
}
// target and hypothesis are given with constants multiplied by `sc`
static std::unique_ptr<EquivalenceOracle> exactOracle(const TimedAutomaton &t, const std::string &al) {
  std::vector<Alphabet> a(al.begin(), al.end());
  auto k = t.complement(a); k.simplifyStrong(); k.simplifyWithZones();
  return std::make_unique<ComplementTimedAutomataEquivalenceOracle>(t, k, a);
}
static void pairCase(const ref::TA &t, const ref::TA &h, int sc, const std::string &al, mc::Case &c, bool rev = false) {
  c.key("target " + ref::show(t) + " hypothesis " + ref::show(h) + (sc > 1 ? " (constants in units of 1/" + std::to_string(sc) + ")" : "") + (rev ? " (transitions added in descending order of letters)" : ""));
  ref::Stats st; auto eq = ref::equivalent(t, h, al, st);
  auto lt_ = conv::toLib(t, sc, rev), lh = conv::toLib(h, sc, rev);
  auto before = conv::show(lh);
  auto o = exactOracle(lt_, al);
  for (int again = 0; again < 2; ++again) {       // an oracle answers a history of queries
    auto r = o->findCounterExample(lh);
    c.traces();
    if (!r && eq.found) c.fail("no counterexample although they differ on " + ref::show(eq.witness, eq.Q * sc));
    if (r) {
      ref::Word w; const int Q = 1 << 24;
      if (!exactWord(*r, Q, w)) c.fail("counterexample has a negative or non-dyadic delay: " + conv::show(*r));
      else if (ref::accepts(t, w, Q / sc) == ref::accepts(h, w, Q / sc)) c.fail("spurious counterexample " + conv::show(*r));
    }
  }
  if (o->numEqQueries() != 2) c.fail("2 queries are counted as " + std::to_string(o->numEqQueries()));
  if (conv::show(lh) != before) c.fail("the query modified the hypothesis");
  c.states(st.states); c.transitions(st.transitions);
  if (!eq.found) c.nontrivial();
  if (c.idx % 9973 == 11) c.sample(ref::show(t) + " vs " + ref::show(h) + (eq.found ? " differ" : " equivalent"));
}
// a hypothesis with urgent unobservable transitions
static void urgentCase(const ref::TA &t, const ref::TA &h, const std::string &al, mc::Case &c) {
  c.key("target " + ref::show(t) + " hypothesis " + ref::show(h));
  ref::Stats st; auto eq = ref::equivalent(t, h, al, st);
  if (eq.nondet) { c.fail("harness: nondeterministic"); return; }
  if (eq.found && ref::acceptsUrgent(t, eq.witness, eq.Q) == ref::acceptsUrgent(h, eq.witness, eq.Q)) { c.fail("harness: wrong witness"); return; }
  auto lt_ = conv::toLib(t), lh = conv::toLib(h); auto before = conv::show(lh);
  auto o = exactOracle(lt_, al);
  for (int again = 0; again < 2; ++again) {
    auto r = o->findCounterExample(lh); c.traces();
    if (!r && eq.found) return c.fail("no counterexample although they differ on " + ref::show(eq.witness, eq.Q));
    if (r) {
      ref::Word w; const int Q = 1 << 24;
      if (!exactWord(*r, Q, w)) return c.fail("counterexample has a negative or non-dyadic delay: " + conv::show(*r));
      if (ref::acceptsUrgent(t, w, Q) == ref::acceptsUrgent(h, w, Q)) return c.fail("spurious counterexample " + conv::show(*r));
    }
  }
  if (conv::show(lh) != before) c.fail("the query modified the hypothesis");
  c.states(st.states); c.transitions(st.transitions); if (!eq.found) c.nontrivial();
  if (c.idx % 9973 == 11) c.sample(ref::show(t) + " vs " + ref::show(h) + (eq.found ? " differ" : " equivalent"));
}
// hypotheses of two locations; the first is left by time: an unobservable transition with guard x >= c whose letters need x < c
struct Eps {
  int K; bool big; std::vector<std::vector<ref::Reset>> rs; std::vector<Outcome> lo, hi;
  Eps(int K, bool big) : K(K), big(big) {
    if (K == 1) rs = {{}, {zero(0)}, {cst(0, 1)}}; else rs = {{}, {zero(0)}, {cpy(1, 0)}, {zero(1), cst(0, 1)}};
    lo = {{-1, {}}, {0, {}}, {1, {}}, {1, {zero(0)}}}; hi = {{-1, {}}, {0, {zero(0)}}, {1, {}}, {1, {zero(0)}}};
    if (K == 2) { lo.push_back({1, {zero(1)}}); hi.push_back({0, {zero(0), zero(1)}}); }
  }
  unsigned long long total() const { return 4ull * (big ? 2 : 1) * rs.size() * lo.size() * 2 * 2 * hi.size() * hi.size(); }
  ref::TA make(unsigned long long i) const {
    Digits x(i); ref::TA a; a.nclk = K; a.locs.resize(2); for (auto &l : a.locs) l.acc = x.take(2);
    int c = big ? 1 + x.take(2) : 1;
    a.locs[0].out[0].push_back({1, {ge(0, c)}, rs[x.take(rs.size())]});
    auto &o = lo[x.take(lo.size())]; if (o.target >= 0) a.locs[0].out['a'].push_back({o.target, {lt(0, c)}, o.resets});
    int k = K == 2 ? x.take(2) : (x.take(2), 0), s = x.take(2); int cc = 1;
    for (int h = 0; h < 2; ++h) { auto &p = hi[x.take(hi.size())]; if (p.target >= 0) a.locs[1].out['a'].push_back({p.target, {{k, h == 0 ? (s ? ref::LE : ref::LT) : (s ? ref::GT : ref::GE), cc}}, p.resets}); }
    return a;
  }
};
// hypotheses with four unobservable transitions in one location: the first letter resets x1, and at x0 = 2 one of them fires, according to x1.
// The targets have a location for each of the three instead (entered according to the time of the first letter).
struct Four {
  static constexpr unsigned long long targets = 81 * 2, hyps = 64 * 8;
  static ref::TA target(unsigned long long i) {
    Digits x(i); ref::TA a; a.nclk = 1; a.locs.resize(6); bool b = x.take(2); for (auto &l : a.locs) l.acc = b; a.locs[4].acc = !b;
    a.locs[0].out['a'] = {{5, {le(0, 0)}, {}}, {1, {gt(0, 0), lt(0, 1)}, {}}, {2, {ge(0, 1), le(0, 1)}, {}}, {3, {gt(0, 1), lt(0, 2)}, {}}};
    for (int k : {1, 2, 3, 5}) { int o = x.take(3); if (o) a.locs[k].out['a'].push_back({4, {ge(0, 2), le(0, 1 + o)}, {}}); }
    return a;
  }
  // `order` is the order in which the three transitions are listed
  static ref::TA hyp(unsigned long long i, bool b, int order) {
    Digits x(i); ref::TA a; a.nclk = 2; a.locs.resize(5); a.locs[0].acc = b; for (int k = 1; k <= 3; ++k) a.locs[k].acc = x.take(2); a.locs[4].acc = !b;
    a.locs[0].out['a'].push_back({1, {lt(0, 2)}, {zero(1)}});
    std::vector<std::vector<ref::Guard>> parts = {{gt(1, 1), lt(1, 2)}, {ge(1, 1), le(1, 1)}, {lt(1, 1)}};
    std::vector<ref::Edge> es;
    for (auto &p : parts) {
      int o = x.take(4); auto g = p; g.insert(g.begin(), ge(0, 2));
      if (o == 0) es.push_back({0, g, {zero(0)}}); else if (o == 1) es.push_back({3, g, {}}); else if (o == 2) es.push_back({2, g, {zero(0)}}); else if (o == 3) es.push_back({2, g, {cst(0, 1)}});
    }
    es.push_back({3, {ge(0, 2), ge(1, 2)}, {}});   // one of them stays enabled when time passes; x1 = 2: the first letter came at once
    std::vector<int> pm = {0, 1, 2, 3}; while (order--) std::next_permutation(pm.begin(), pm.end());
    std::vector<ref::Edge> out; for (int k : pm) out.push_back(es[k]);
    a.locs[1].out[0] = out;
    a.locs[2].out['a'].push_back({4, {le(0, 1)}, {}});
    return a;
  }
};
// a history of hypotheses put to memoizing / chained oracles
static void memoCase(const ref::TA &t, const std::vector<ref::TA> &hs, int kind, const std::string &al, mc::Case &c) {
  static const char *kinds[] = {"memo(exact)", "chain(exact)", "memo(chain(exact,exact))", "chain(memo(exact),exact)"};
  std::string k = std::string(kinds[kind]) + ": target " + ref::show(t);
  for (auto &h : hs) k += " hypothesis " + ref::show(h);
  c.key(k);
  auto lt_ = conv::toLib(t);
  auto chain = [&](std::vector<std::unique_ptr<EquivalenceOracle>> v) { auto r = std::make_unique<EquivalenceOracleChain>(); for (auto &x : v) r->push_back(std::move(x)); return std::unique_ptr<EquivalenceOracle>(std::move(r)); };
  auto memo = [&](std::unique_ptr<EquivalenceOracle> x) { return std::unique_ptr<EquivalenceOracle>(std::make_unique<EquivalenceOracleMemo>(std::move(x), lt_)); };
  auto v = [](std::unique_ptr<EquivalenceOracle> a, std::unique_ptr<EquivalenceOracle> b) { std::vector<std::unique_ptr<EquivalenceOracle>> r; if (a) r.push_back(std::move(a)); if (b) r.push_back(std::move(b)); return r; };
  std::unique_ptr<EquivalenceOracle> o;
  if (kind == 0) o = memo(exactOracle(lt_, al));
  else if (kind == 1) o = chain(v(exactOracle(lt_, al), nullptr));
  else if (kind == 2) o = memo(chain(v(exactOracle(lt_, al), exactOracle(lt_, al))));
  else o = chain(v(memo(exactOracle(lt_, al)), exactOracle(lt_, al)));
  int n = 0; bool nt = false;
  for (auto &h : hs) {
    ++n;
    ref::Stats st; auto eq = ref::equivalent(t, h, al, st);
    auto r = o->findCounterExample(conv::toLib(h));
    c.traces(); c.states(st.states); c.transitions(st.transitions);
    if (!r && eq.found) c.fail("query " + std::to_string(n) + ": no counterexample although they differ on " + ref::show(eq.witness, eq.Q));
    if (r) {
      ref::Word w; const int Q = 1 << 24; nt = true;
      if (!exactWord(*r, Q, w)) c.fail("counterexample has a negative or non-dyadic delay: " + conv::show(*r));
      else if (ref::accepts(t, w, Q) == ref::accepts(h, w, Q)) c.fail("query " + std::to_string(n) + ": spurious counterexample " + conv::show(*r));
    }
    if ((int) o->numEqQueries() != n) c.fail("query count is " + std::to_string(o->numEqQueries()) + " after " + std::to_string(n) + " queries");
  }
  if (nt) c.nontrivial();
}
// a fixed list of words put to the test-based oracle
static void byTestCase(const ref::TA &t, const ref::TA &h, unsigned long long wi, mc::Case &c, unsigned A = 1) {
  std::vector<ref::Word> ws; gen::Digits d(wi);
  static const int durs[] = {0, 1, 2, 3};
  for (int k = 0; k < 2; ++k) { ref::Word w; int len = d.take(3); w.dur.push_back(durs[d.take(4)]); for (int i = 0; i < len; ++i) { w.w.push_back((char) ('a' + d.take(A))); w.dur.push_back(durs[d.take(i ? 3 : 4)]); } ws.push_back(w); }
  const int Q = 2;
  c.key("by-test: target " + ref::show(t) + " hypothesis " + ref::show(h) + " words " + ref::show(ws[0], Q) + " ; " + ref::show(ws[1], Q));
  EquivalenceOracleByTest o(conv::toLib(t)); for (auto &w : ws) o.push_back(conv::word(w, Q));
  auto r = o.findCounterExample(conv::toLib(h)); c.traces();
  // some prefix of a listed word (cut after a letter or after a delay) distinguishes them?
  bool any = false;
  for (auto &w : ws) {
    for (size_t i = 0; i <= w.w.size(); ++i) {
      ref::Word p{w.w.substr(0, i), {w.dur.begin(), w.dur.begin() + i + 1}};
      std::vector<ref::Word> cut{p}; if (i) { cut.push_back(p); cut.back().dur.back() = 0; }
      for (auto &x : cut) { c.states(); if (ref::acceptsUrgent(t, x, Q) != ref::acceptsUrgent(h, x, Q)) any = true; }
    }
  }
  c.transitions(ws[0].w.size() + ws[1].w.size());
  if (any) c.nontrivial();
  if (!r && any) c.fail("no counterexample although a listed word distinguishes them");
  if (r) { ref::Word w; if (!exactWord(*r, Q, w)) c.fail("malformed counterexample " + conv::show(*r)); else if (ref::acceptsUrgent(t, w, Q) == ref::acceptsUrgent(h, w, Q)) c.fail("spurious counterexample " + conv::show(*r)); }
}
static void randomCase(const ref::TA &t, const ref::TA &h, unsigned seed, mc::Case &c) {
  c.key("random-test: seed " + std::to_string(seed) + " target " + ref::show(t) + " hypothesis " + ref::show(h));
  currentSeed = seed;
  EquivalenceOracleByRandomTest o({'a'}, conv::toLib(t), 4, 3, 2);
  auto r = o.findCounterExample(conv::toLib(h)); c.traces();
  if (r) {
    c.nontrivial();
    // judged with an independent floating-point run (the same IEEE additions as any straightforward implementation)
    auto run = [&](const ref::TA &a) {
      int l = a.init; std::vector<double> v(a.nclk, 0); auto ds = r->getDurations(); auto w = r->getWord();
      for (size_t i = 0; i <= w.size(); ++i) {
        for (auto &x : v) x += ds.at(i);
        if (i == w.size()) break;
        const ref::Edge *hit = nullptr; auto it = a.locs[l].out.find(w[i]);
        if (it != a.locs[l].out.end()) for (auto &e : it->second) { bool ok = true; for (auto &g : e.guard) { double y = v[g.x]; ok = ok && (g.op == ref::LT ? y < g.c : g.op == ref::LE ? y <= g.c : g.op == ref::GE ? y >= g.c : y > g.c); } if (ok) { hit = &e; break; } }
        if (!hit) return false;
        auto o2 = v; for (auto &s : hit->resets) o2[s.x] = s.isClock ? v[s.v] : s.v; v = o2; l = hit->target;
      }
      return (bool) a.locs[l].acc;
    };
    if (r->getDurations().size() != r->getWord().size() + 1) c.fail("malformed counterexample " + conv::show(*r));
    else if (run(t) == run(h)) c.fail("spurious counterexample " + conv::show(*r));
    ref::Stats st; if (!ref::equivalent(t, h, "a", st).found) c.fail("counterexample for equivalent automata: " + conv::show(*r));
    c.states(st.states); c.transitions(st.transitions);
  }
}

void mc::Driver::setup(mc::Driver &d) {
  bool th = d.thorough();
  d.statesMean = "configurations of the reference product region graphs"; d.transMean = "transitions of those graphs";
  d.tracesMean = "oracle answers compared with the exact reference verdict";
  Parts a1; a1.K = 1; a1.L = 1; a1.A = 1; a1.parts = {{{lt(0, 1)}, {ge(0, 1), le(0, 1)}, {gt(0, 1)}}}; a1.outs = outcomes(1, {{}, {zero(0)}});
  Parts a2; a2.K = 1; a2.L = 2; a2.A = 1; a2.parts = {{{le(0, 1)}, {gt(0, 1)}}}; a2.outs = {{-1, {}}, {0, {}}, {1, {zero(0)}}};
  Parts a3 = a2; a3.outs = outcomes(2, {{}, {zero(0)}});
  Parts a4 = a2; a4.parts = {{{lt(0, 1)}, {ge(0, 1)}}, {{gt(0, 0), lt(0, 2)}}};
  Parts b1; b1.K = 2; b1.L = 1; b1.A = 1; b1.parts = {{{lt(0, 1)}, {ge(0, 1), le(1, 1)}}}; b1.outs = {{-1, {}}, {0, {}}, {0, {cpy(0, 1)}}, {0, {zero(1)}}, {0, {zero(0), cst(1, 1)}}};
  Parts b2 = b1; b2.L = 2; b2.freeAcc = false; b2.outs = {{-1, {}}, {0, {}}, {1, {cpy(0, 1)}}, {1, {zero(1)}}, {0, {zero(0), cst(1, 1)}}};
  // constants in units of 1/2: assignments x := 1/2
  Parts f1; f1.K = 1; f1.L = 2; f1.A = 1; f1.parts = {{{lt(0, 2)}, {ge(0, 2)}}}; f1.outs = {{-1, {}}, {1, {}}, {0, {cst(0, 1)}}, {1, {cst(0, 3)}}};
  Parts f2; f2.K = 2; f2.L = 1; f2.A = 1; f2.parts = {{{lt(0, 2), le(1, 2)}, {ge(0, 2)}}}; f2.outs = {{-1, {}}, {0, {cst(0, 1)}}, {0, {cpy(1, 0), cst(0, 1)}}, {0, {zero(1)}}};
  Parts f3; f3.K = 1; f3.L = 2; f3.A = 1; f3.freeAcc = false; f3.parts = {{{lt(0, 2)}, {ge(0, 2)}}}; f3.outs = {{-1, {}}, {1, {}}, {0, {zero(0)}}};
  Parts l2; l2.K = 1; l2.L = 1; l2.A = 2; l2.parts = {{{le(0, 1)}, {gt(0, 1)}}}; l2.outs = outcomes(1, {{}, {zero(0)}});
  if (d.prop == "C37") {
    for (auto &t : {std::make_pair(std::string("1loc"), a1), {"2loc", a2}, {"2clk", b1}}) for (int K = 1; K <= 2; ++K) {
      Eps e(K, th); Parts a = t.second; auto ta = a.total(), te = e.total(); 
      d.add(t.first + "-eps" + std::to_string(K), ta * te, "all pairs (target, hypothesis with an urgent unobservable transition over " + std::to_string(K) + " clocks)", [=](mc::u64 i, mc::Case &c) { urgentCase(a.make(i % ta), e.make(i / ta), "a", c); });
    }
    d.add("four-eps", Four::targets * Four::hyps * (th ? 24 : 4), "hypotheses with four unobservable transitions in one location (quick: four rotations; thorough: in every order; three of them to a dead location, back to the start, or to the last step assigning 0 or 1) x targets with a location for each of them", [=](mc::u64 i, mc::Case &c) {
      Digits x(i); auto t = Four::target(x.take(Four::targets)); int o = th ? x.take(24) : (std::vector<int>{0, 9, 16, 18})[x.take(4)]; auto h = Four::hyp(x.v, t.locs[0].acc, o); urgentCase(t, h, "a", c); });
  } else if (d.prop == "C03") {
    auto pairs = [&](const std::string &n, Parts a, Parts b, int sc = 1) {
      auto ta = a.total(), tb = b.total();
      d.add(n, ta * tb, "all pairs (target, hypothesis) of the two families; both may be partial", [=](mc::u64 i, mc::Case &c) { pairCase(a.make(i % ta), b.make(i / ta), sc, letters(std::max(a.A, b.A)), c); });
    };
    pairs("1loc-1loc", a1, a1); pairs("2loc-1loc", a2, a1); pairs("1loc-2loc", a1, a2); pairs("2clk-1clk", b1, a2); pairs("1clk-2clk", a2, b1);
    pairs("2clk-2clk", b1, b1); pairs("halves-1clk", f3, f1, 2); pairs("halves-2clk", f3, f2, 2); pairs("2letters", l2, l2);
    { auto t2l = l2.total(); d.add("2letters-other", t2l * t2l, "all pairs over the letters ~ and !", [=](mc::u64 i, mc::Case &c) { pairCase(fam::relabelled(l2.make(i % t2l), "ab", "~!"), fam::relabelled(l2.make(i / t2l), "ab", "~!"), 1, "~!", c); }); }
    Parts m1 = b1; m1.A = 2; m1.freeAcc = false; m1.outs = {{-1, {}}, {0, {}}, {0, {cpy(0, 1)}}, {0, {zero(1)}}};
    Parts m2 = a2; m2.A = 2; m2.freeAcc = false; m2.outs = {{-1, {}}, {0, {}}, {1, {}}, {1, {zero(0)}}}; m2.parts = {{{lt(0, 1)}, {ge(0, 1)}}};
    { auto n1 = fam::fit(fam::wrap("", "targets over two clocks", m1), 500), n2 = fam::fit(fam::wrap("", "hypotheses of two locations", m2), th ? 8192 : 300);
      d.add("2clk-2letters", n1.total * n2.total, "all pairs over two letters: " + n1.space + " / " + n2.space, [=](mc::u64 i, mc::Case &c) { pairCase(n1.make(i % n1.total), n2.make(i / n1.total), 1, "ab", c); }); }
    // runs of three letters whose letters compete for the same location: the first step decides which part of a zone later steps see
    for (int dir = 0; dir < 4; ++dir) for (int K = 1; K <= 2; ++K) {
      auto f = fam::ladder(K, th ? 3000000 : (K == 1 ? 50000 : 90000));
      d.add("chain-" + std::to_string(K) + (dir & 1 ? "-swap" : "") + (dir & 2 ? "-desc" : ""), f.total, "against the empty language: " + f.space, [=](mc::u64 i, mc::Case &c) {
        auto t = f.make(i); ref::TA h; h.nclk = 1; h.locs.resize(1); if (dir & 1) pairCase(h, t, 1, "ab", c, dir & 2); else pairCase(t, h, 1, "ab", c, dir & 2); });
    }
    if (th) { pairs("2clk-2loc", b1, b2); pairs("2clk-2loc-rev", b2, b1); pairs("big-1clk", a3, a2); pairs("halves-both", f1, f1, 2); pairs("2loc-2loc", a2, a2); pairs("parts", a4, a2); }
    else { pairs("2loc-2loc", a2, a2); }
  } else {
    auto t2 = a2.total(); auto t1 = a1.total();
    auto tb = b1.total();
    for (int k = 0; k < 4; ++k)
      d.add("history-" + std::to_string(k), th ? t2 * t1 * t1 : t1 * t1 * t1, "every target x every ordered pair of hypotheses", [=](mc::u64 i, mc::Case &c) {
        Digits x(i); auto t = th ? a2.make(x.take(t2)) : a1.make(x.take(t1)); auto h1 = a1.make(x.take(t1)); auto h2 = a1.make(x.take(t1));
        memoCase(t, {h1, h2, h1}, k, "a", c); });
    (void) tb;
    auto narrow = [](const Parts &p, unsigned long long cap) { return fam::fit(fam::wrap("", "automata", p), cap); };
    { auto n = narrow(a1, th ? 54 : 16); mc::u64 N = n.total, nw = 144ull * 144; d.add("by-test", N * N * nw, "all targets x all hypotheses (1 clock, 1 location, 3 guards; " + n.space + ") x all pairs of words of at most 2 letters with delays 0, 1/2, 1, 3/2", [=](mc::u64 i, mc::Case &c) { Digits x(i); auto t = n.make(x.take(N)); auto h = n.make(x.take(N)); byTestCase(t, h, x.v, c); }); }
    // the first word is empty here, the second one ranges over all
    { auto n = narrow(l2, th ? 162 : 32); mc::u64 N = n.total; d.add("by-test-letters", N * N * 576, "all targets x all hypotheses over two letters (1 clock, 1 location; " + n.space + ") x all words of at most 2 letters with delays 0, 1/2, 1, 3/2", [=](mc::u64 i, mc::Case &c) { Digits x(i); auto t = n.make(x.take(N)); auto h = n.make(x.take(N)); byTestCase(t, h, x.v * 12, c, 2); }); }
    for (int K = 1; K <= 2; ++K) {
      Eps e(K, false); if (!th) { e.rs.resize(3); e.lo = fam::pick(e.lo, 3, 0); e.hi = fam::pick(e.hi, 3, 0); }
      auto n = narrow(a1, 16); mc::u64 N = n.total, te = e.total();
      d.add("by-test-eps" + std::to_string(K), N * te * 144, "targets (1 clock, 1 location, 3 guards; " + n.space + ") x hypotheses with an urgent unobservable transition over " + std::to_string(K) + " clock(s) (" + std::to_string(e.rs.size()) + " assignments, " + std::to_string(e.lo.size()) + "/" + std::to_string(e.hi.size()) + " outcomes) x all words of at most 2 letters with delays 0, 1/2, 1, 3/2", [=](mc::u64 i, mc::Case &c) { Digits x(i); auto t = n.make(x.take(N)); auto h = e.make(x.take(te)); byTestCase(t, h, x.v * 12, c); });
    }
    d.add("random-test", 54ull * 54 * (th ? 256 : 32), "all pairs x every generator seed up to a bound", [=](mc::u64 i, mc::Case &c) { Digits x(i); auto t = a1.make(x.take(54)); auto h = a1.make(x.take(54)); randomCase(t, h, (unsigned) x.v, c); });
  }
  d.assumptions = {"the reference region-graph model (ref.hh) implements standard timed-automaton semantics with simultaneous assignments"};
}
MC_MAIN("C03")
