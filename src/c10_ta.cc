// C10 emptiness + witness, C11 intersection, C12 complement, C13 simplification, C16 determinism
#include "mc.hh"
#include "conv.hh"
#include "ta_families.hh"
#include "intersection.hh"
#include "ta2za.hh"
#include "zone_automaton.hh"
#include "timed_automaton.hh"
using namespace learnta;
using fam::Named;

// ---------- C12 ----------
static void complementCase(const ref::TA &a, const std::string &al, mc::Case &c) {
  c.key(ref::show(a));
  auto t = conv::toLib(a);
  auto before = conv::show(t);
  auto k = t.complement(std::vector<Alphabet>(al.begin(), al.end()));
  if (conv::show(t) != before) c.fail("complementing changed the automaton itself");
  std::string err; auto r = conv::fromLib(k, 1, err);
  if (!err.empty()) c.fail("malformed: " + err);
  ref::Stats st;
  auto p = ref::product({&a, &r}, al, [](const std::vector<bool> &x) { return x[0] == x[1]; }, st);
  c.states(st.states); c.transitions(st.transitions); c.traces();
  if (p.nondet && p.nondetWhich == 1) c.fail("complement is not deterministic: " + ref::show(r));
  if (p.found) c.fail("complement agrees with the automaton on " + ref::show(p.witness, p.Q) + ": " + ref::show(r));
  if (st.states > 6) c.nontrivial();
  if (c.idx % 9973 == 11) c.sample(ref::show(a));
}
// ---------- C13 ----------
static const char *simpNames[] = {"simplify", "simplifyStrong", "simplifyWithZones", "simplifyStrong+simplifyWithZones", "complement+simplifyStrong+simplifyWithZones",
                                  "mergeAdjacentTransitions", "mergeAdjacentTransitions+simplifyStrong", "deepCopy"};
static std::vector<int> mentioned(const ref::TA &a, bool grow) {   // maximum guard constant of every clock up to the largest one mentioned
  std::vector<int> v; auto at = [&](int x) -> int & { if (x >= (int) v.size()) v.resize(x + 1, 0); return v[x]; };
  for (auto &l : a.locs) for (auto &o : l.out) for (auto &e : o.second) {
    for (auto &g : e.guard) { int &m = at(g.x); m = std::max(m, (int) g.c); }
    if (grow) for (auto &r : e.resets) { at(r.x); if (r.isClock) at((int) r.v); }
  }
  return v;
}
static std::string list(const std::vector<int> &v) { std::string s = "["; for (int x : v) s += " " + std::to_string(x); return s + " ]"; }
static bool maxCase(const TimedAutomaton &t, const ref::TA &a, const std::string &what, mc::Case &c) {
  auto got = TimedAutomaton::makeMaxConstants(t.states), want = mentioned(a, true);
  if (got != want) { c.fail(what + ": makeMaxConstants gives " + list(got) + " instead of " + list(want)); return false; }
  auto low = mentioned(a, false);
  for (size_t x = 0; x < low.size(); ++x) if (x >= t.maxConstraints.size() || t.maxConstraints[x] < low[x]) { c.fail(what + ": the maximum constant declared for clock " + std::to_string(x) + " is below " + std::to_string(low[x])); return false; }
  return true;
}
static void simplifyCase(const ref::TA &a, const std::string &al, mc::Case &c, int from = 0, int to = 8) {
  for (int m = from; m < to; ++m) {
    c.key(std::string(simpNames[m]) + ": " + ref::show(a));
    auto t = conv::toLib(a); TimedAutomaton copy; bool neg = false;
    switch (m) {
      case 0: t.simplify(); break;
      case 1: t.simplifyStrong(); break;
      case 2: t.simplifyWithZones(); break;
      case 3: t.simplifyStrong(); t.simplifyWithZones(); break;
      case 4: { auto k = t.complement(std::vector<Alphabet>(al.begin(), al.end())); k.simplifyStrong(); k.simplifyWithZones(); t = k; neg = true; break; }
      case 5: t.mergeAdjacentTransitions(); break;
      case 6: t.mergeAdjacentTransitions(); t.simplifyStrong(); break;
      case 7: { std::unordered_map<TAState *, std::shared_ptr<TAState>> o; TimedAutomaton d; t.deepCopy(d, o); t = d; break; }
    }
    std::string err; auto r = conv::fromLib(t, 1, err);
    if (!err.empty()) { c.fail(std::string(simpNames[m]) + " result malformed: " + err); continue; }
    if (!maxCase(t, r, simpNames[m], c)) continue;
    ref::Stats st;
    auto p = ref::product({&a, &r}, al, [&](const std::vector<bool> &x) { return (x[0] != x[1]) != neg; }, st);
    c.states(st.states); c.transitions(st.transitions); c.traces();
    if (p.nondet && p.nondetWhich == 1) c.fail(std::string(simpNames[m]) + " made it nondeterministic: " + ref::show(r));
    if (p.found) c.fail(std::string(simpNames[m]) + " changed the language on " + ref::show(p.witness, p.Q) + ": " + ref::show(r));
    if (r.locs.size() < a.locs.size() || r.nclk < a.nclk) c.nontrivial();
  }
  if (c.idx % 9973 == 11) c.sample(ref::show(a));
}
// ---------- C11 ----------
static void intersectCase(const ref::TA &a, const ref::TA &b, const std::string &al, mc::Case &c) {
  c.key(ref::show(a) + " || " + ref::show(b));
  auto s = conv::toLib(a), t = conv::toLib(b); TimedAutomaton out;
  boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m;
  intersectionTA(s, t, out, m);
  std::string err; auto r = conv::fromLib(out, 1, err);
  if (!err.empty()) { c.fail("malformed: " + err); return; }
  ref::Stats st;
  auto p = ref::product({&a, &b, &r}, al, [](const std::vector<bool> &x) { return (x[0] && x[1]) != x[2]; }, st);
  c.states(st.states); c.transitions(st.transitions); c.traces();
  if (p.nondet && p.nondetWhich == 2) c.fail("intersection of deterministic automata is not deterministic");
  if (p.found) c.fail("intersection is wrong on " + ref::show(p.witness, p.Q) + ": " + ref::show(r));
  if (st.states > 6) c.nontrivial();
  if (c.idx % 9973 == 11) c.sample(ref::show(a) + " && " + ref::show(b));
}
// ---------- C10 ----------
static void emptinessCase(const ref::TA &a, std::vector<int> inits, mc::Case &c, bool rev = false) {
  c.key(ref::show(a) + " inits=" + std::to_string(inits.size()) + (rev ? " (transitions added in descending order of letters)" : ""));
  ref::Stats st;
  bool ne = ref::nonempty(a, inits, st);
  for (int quick = 1; quick >= 0; --quick) {
    auto t = conv::toLib(a, 1, rev); t.initialStates.clear();
    for (int i : inits) t.initialStates.push_back(t.states[i]);
    ZoneAutomaton za;
    ta2za(t, za, quick);
    auto w = quick ? za.sampleWithMemo() : za.sample();
    c.traces();
    const char *mode = quick ? "early-stopping" : "complete";
    if (w) {
      ref::Word rw; rw.w = w->getWord(); const int Q = 1 << 24;
      bool exact = true;
      for (double d : w->getDurations()) { double x = d * Q; if (x != std::floor(x) || x < 0) exact = false; rw.dur.push_back((long long) std::llround(x)); }
      if (!exact) c.fail(std::string(mode) + " zone graph: witness has a negative or non-dyadic duration: " + conv::show(*w));
      else if (!ref::acceptsNd(a, rw, Q, inits)) c.fail(std::string(mode) + " zone graph: witness is not accepted: " + conv::show(*w));
      if (!ne) c.fail(std::string(mode) + " zone graph: witness for an empty language: " + conv::show(*w));
    } else if (ne) c.fail(std::string(mode) + " zone graph: no witness although the language is not empty");
  }
  c.states(st.states); c.transitions(st.transitions);
  if (st.states > 4) c.nontrivial();
  if (c.idx % 9973 == 11) c.sample(ref::show(a) + (ne ? " nonempty" : " empty"));
}

// nondeterministic chains/graphs for C10: edges chosen from menus
struct Graph {
  int K, L, E; std::vector<std::vector<ref::Guard>> guards; std::vector<std::vector<ref::Reset>> resets;
  // edge i goes from location src(i): edge 0 leaves 0; others leave any; the last location accepts
  unsigned long long per() const { return (unsigned long long) L * (L - 1) * guards.size() * resets.size(); }
  unsigned long long total() const { return gen::ipow(per(), E); }
  // ownLetters: the i-th edge carries the i-th letter
  ref::TA make(unsigned long long idx, bool ownLetters = false) const {
    gen::Digits d(idx); ref::TA a; a.nclk = K; a.locs.resize(L); a.locs[L - 1].acc = true;
    for (int e = 0; e < E; ++e) {
      unsigned s = d.take(L - 1), t = d.take(L);   // the accepting location has no outgoing edges
      auto g = guards[d.take(guards.size())]; auto r = resets[d.take(resets.size())];
      a.locs[s].out[ownLetters ? 'a' + e : 'a'].push_back({(int) t, g, r});
    }
    return a;
  }
};
void mc::Driver::setup(mc::Driver &d) {
  using namespace gen;
  bool th = d.thorough();
  d.statesMean = "configurations (locations x clock regions) of the reference product, explored to fixpoint";
  d.transMean = "time-successor and discrete transitions of the reference region graph";
  d.tracesMean = "library results (automata / witness words) compared exactly with the reference model";
  std::vector<Named> fams = {fam::one(th), fam::three(), fam::two(th), fam::withEmptyEntries(fam::letters2()), fam::larger(), fam::tiny3clk()};
  if (th) fams.push_back(fam::split2());
  fams.push_back(fam::ladder(1, th ? 1000000 : 20000)); fams.push_back(fam::ladder(2, th ? 300000 : 6000));
  for (int k = 0; k < 3; ++k) fams.push_back(fam::grid(k));
  fams.push_back(fam::relabel(fam::fit(fam::letters2(), 8000), "~!")); fams.push_back(fam::backwards(fam::ladder(1, th ? 1000000 : 10000))); fams.push_back(fam::backwards(fam::ladder(2, 6000)));
  fams.push_back(fam::growing());
  fams.push_back(fam::copies3()); fams.push_back(fam::copies2(th));
  if (d.prop == "C12") for (auto &f : fams) d.add(f.name, f.total, f.space, [=](mc::u64 i, mc::Case &c) { complementCase(f.make(i), f.alphabet, c); });
  if (d.prop == "C13") for (auto &f : fams) d.add(f.name, f.total, f.space, [=](mc::u64 i, mc::Case &c) {
    // merging "adjacent" guards that differ on several clocks is meant for time successors of a region only: not claimed for grids
    if (f.name.compare(0, 5, "grid-") == 0) { simplifyCase(f.make(i), f.alphabet, c, 0, 5); simplifyCase(f.make(i), f.alphabet, c, 7, 8); } else simplifyCase(f.make(i), f.alphabet, c); });
  if (d.prop == "C11") {
    // pairs: (family A, all of a smaller family B)
    Parts s1; s1.K = 1; s1.L = 1; s1.A = 1; s1.parts = {{{lt(0, 1)}, {ge(0, 1), le(0, 1)}, {gt(0, 1)}}}; s1.outs = outcomes(1, {{}, {zero(0)}, {cst(0, 1)}});
    Parts s2; s2.K = 2; s2.L = 2; s2.A = 1; s2.freeAcc = false; s2.parts = {{{lt(0, 1), gt(1, 0)}, {ge(0, 1), le(1, 1)}}}; s2.outs = outcomes(2, {{cpy(1, 0), zero(0)}, {zero(1)}});
    Parts s3; s3.K = 1; s3.L = 2; s3.A = 2; s3.parts = {{{le(0, 1)}, {gt(0, 1)}}}; s3.outs = {{-1, {}}, {0, {}}, {1, {zero(0)}}};
    Parts s4; s4.K = 1; s4.L = 2; s4.A = 1; s4.parts = {{{le(0, 1)}, {gt(0, 2)}}}; s4.outs = outcomes(2, {{}, {zero(0)}});
    auto pairs = [&](const std::string &n, Parts a, Parts b) {
      auto ta = a.total(), tb = b.total();
      d.add(n, ta * tb, "all ordered pairs", [=](mc::u64 i, mc::Case &c) { intersectCase(a.make(i % ta), b.make(i / ta), letters(std::max(a.A, b.A)), c); });
    };
    pairs("1loc x 1loc", s1, s1); pairs("1loc x 2clk", s1, s2); pairs("2clk x 2clk", s2, s2); pairs("2clk x 1loc", s2, s1); pairs("2loc x 1loc", s4, s1);
    if (th) { pairs("2let x 1loc", s3, s1); pairs("2loc x 2clk", s4, s2); }
    // chains of assignments x small automata, in both orders
    auto chains = [&](const std::string &n, Named a, Parts b) {
      auto ta = a.total, tb = b.total();
      d.add(n + ", chain first", ta * tb, a.space + " x small automata", [=](mc::u64 i, mc::Case &c) { intersectCase(a.make(i % ta), b.make(i / ta), "a", c); });
      d.add(n + ", chain second", ta * tb, "small automata x " + a.space, [=](mc::u64 i, mc::Case &c) { intersectCase(b.make(i / ta), a.make(i % ta), "a", c); });
    };
    Parts u0; u0.K = 0; u0.L = 1; u0.A = 1; u0.parts = {{{}}}; u0.outs = {{0, {}}};
    Parts u1; u1.K = 1; u1.L = 1; u1.A = 1; u1.parts = {{{lt(0, 1)}, {ge(0, 1)}}}; u1.outs = outcomes(1, {{}, {zero(0)}}); u1.freeAcc = false;
    Parts u2; u2.K = 2; u2.L = 1; u2.A = 1; u2.parts = {{{le(1, 1)}, {gt(1, 1)}}}; u2.outs = outcomes(1, {{cpy(1, 0), zero(0)}, {cpy(0, 1), cpy(1, 0)}}); u2.freeAcc = false;
    chains("copies x no clock", fam::copies2(true), u0); chains("copies x 1 clock", fam::copies2(th), u1); chains("copies x copies", fam::copies2(false), u2);
    Parts s5 = s3; s5.L = 1; s5.outs = outcomes(1, {{}, {zero(0)}});
    pairs("2let x 2let", s5, s5);
    auto t3 = s3.total(); [[maybe_unused]] auto t5 = s5.total();
    auto n5 = fam::fit(fam::wrap("", "1 location, 2 letters", s5), th ? t5 : 32);
    d.add("2loc2let x 2let", t3 * n5.total, "all 2-location 2-letter automata x " + n5.space, [=](mc::u64 i, mc::Case &c) { intersectCase(s3.make(i % t3), n5.make(i / t3), "ab", c); });
  }
  if (d.prop == "C10") {
    std::vector<std::vector<ref::Guard>> g1 = guards1(0, 2);
    Graph a{1, 3, 3, {{}, {lt(0, 1)}, {ge(0, 1), le(0, 1)}, {gt(0, 1), lt(0, 2)}, {gt(0, 2)}, {le(0, 0)}}, {{}, {zero(0)}}};
    d.add("graph-1clk-3edges", a.total(), "1 clock, 3 locations, every multiset of 3 edges over 6 guards x {no reset, x:=0}", [=](mc::u64 i, mc::Case &c) { emptinessCase(a.make(i), {0}, c); });
    for (int rev = 0; rev < 2; ++rev) {   // the order of exploration depends on the letters and on the order in which the transitions were added
      d.add(std::string("graph-1clk-3letters") + (rev ? "-desc" : ""), a.total(), "the same with a letter per edge, letters added in " + std::string(rev ? "descending" : "ascending") + " order", [=](mc::u64 i, mc::Case &c) { emptinessCase(a.make(i, true), {0}, c, rev); });
      for (int K = 1; K <= 2; ++K) { auto f = fam::ladder(K, 100000000); d.add(f.name + (rev ? "-desc" : ""), f.total, f.space, [=](mc::u64 i, mc::Case &c) { emptinessCase(f.make(i), {0}, c, rev); }); }
    }
    d.add("graph-1clk-3letters-other", a.total(), "the same with the letters ~, ! and Z", [=](mc::u64 i, mc::Case &c) { emptinessCase(fam::relabelled(a.make(i, true), "abc", "~!Z"), {0}, c); });
    Graph a2 = a; a2.E = 2; a2.guards = g1; a2.resets = {{}, {zero(0)}, {cst(0, 1)}};
    d.add("graph-1clk-2edges", a2.total(), "1 clock, every pair of edges over all interval guards with constants <= 2", [=](mc::u64 i, mc::Case &c) { emptinessCase(a2.make(i), {0}, c); });
    d.add("graph-1clk-2edges-2inits", a2.total(), "same, with two initial locations", [=](mc::u64 i, mc::Case &c) { emptinessCase(a2.make(i), {0, 1}, c); });
    std::vector<std::vector<ref::Guard>> gm = {{}, {lt(0, 1)}, {gt(0, 1)}, {lt(1, 1)}, {gt(1, 1)}, {ge(0, 1), le(0, 1)}, {ge(1, 2), le(1, 2)}, {lt(0, 1), gt(1, 1)}, {gt(0, 1), lt(1, 1)}, {gt(0, 0), lt(0, 1), gt(1, 1), lt(1, 2)}, {ge(0, 2), lt(1, 1)}};
    std::vector<std::vector<ref::Reset>> rm = {{}, {zero(0)}, {zero(1)}, {cpy(0, 1)}, {cst(0, 1)}, {cpy(1, 0), zero(0)}, {zero(0), zero(1)}};
    if (th) rm.push_back({cpy(0, 1), cpy(1, 0)});
    fam::Chain b{2, 3, {gm, gm, gm}, {rm, rm, {{}}}, false};
    d.add("chain-2clk-3edges", b.total(), "2 clocks, chains of 3 edges, 11 guards x 7 assignments (constants, copies) per edge", [=](mc::u64 i, mc::Case &c) { emptinessCase(b.make(i), {0}, c); });
    std::vector<std::vector<ref::Guard>> gs = {{}, {lt(0, 1)}, {gt(0, 1)}, {lt(1, 1)}, {gt(1, 1)}, {gt(0, 1), lt(1, 1)}, {lt(0, 2), ge(1, 2)}};
    fam::Chain b2{2, 3, {gs, gs, gs}, {{{}, {zero(0)}, {zero(1)}}, {{}, {zero(0)}, {zero(1)}, {cpy(0, 1)}}, {{}}}, true};
    d.add("chain-2clk-loop", b2.total(), "2 clocks, chains of 3 edges with an optional unit loop", [=](mc::u64 i, mc::Case &c) { emptinessCase(b2.make(i), {0}, c); });
    // only one of the clocks is compared with a constant; the other one reaches it through a copy
    Graph cp{2, 3, 3, {{}, {ge(0, 2)}, {gt(0, 1), lt(0, 2)}, {le(0, 0)}, {ge(0, 2), le(0, 2)}}, {{}, {zero(0)}, {cpy(0, 1)}, {zero(1)}, {cpy(0, 1), zero(1)}}};
    d.add("graph-2clk-copies", cp.total(), "2 clocks of which only x0 occurs in guards, every multiset of 3 edges over 5 guards x 5 assignments with copies x0:=x1", [=](mc::u64 i, mc::Case &c) { emptinessCase(cp.make(i), {0}, c); });
    std::vector<std::vector<ref::Guard>> g3 = {{}, {lt(0, 1)}, {gt(1, 1)}, {ge(2, 1), le(2, 1)}, {gt(0, 1), lt(2, 1)}, {lt(1, 1), gt(2, 0)}};
    std::vector<std::vector<ref::Reset>> r3 = {{}, {zero(0)}, {zero(1)}, {cpy(2, 1)}, {cpy(0, 2), zero(2)}};
    fam::Chain b3{3, 4, {g3, g3, g3, g3}, {r3, r3, r3, {{}}}, false};
    d.add("chain-3clk-4edges", th ? b3.total() : b3.total() / 6, std::string("3 clocks, chains of 4 edges, 6 guards x 5 assignments per edge") + (th ? "" : ", the last edge without a guard"), [=](mc::u64 i, mc::Case &c) { emptinessCase(b3.make(i), {0}, c); });
  }
  d.assumptions = {"the reference region-graph model (ref.hh) implements standard timed-automaton semantics with simultaneous assignments"};
}
MC_MAIN("C10")
