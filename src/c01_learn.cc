// C01 / C02: the complete learning loop on enumerated target automata.
#include "mc.hh"
#include "conv.hh"
#include "ta_families.hh"
#include "learner.hh"
#include "equivalance_oracle_chain.hh"
#include "equivalence_oracle_memo.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "timed_automaton_runner.hh"
using namespace learnta;

static ref::TA lift(const TimedAutomaton &h, ref::TA &target, std::string &err) {
  ref::TA hr, t0 = target;
  for (int sc = 1; sc <= 64; sc *= 2) { err.clear(); hr = conv::fromLib(h, sc, err); if (err.empty()) { target = t0; ref::scaleBy(target, sc); break; } }
  return hr;
}

// equivalence oracle wrapper that judges, with the reference model, everything that passes through it
class SpyEq : public EquivalenceOracle {
  std::unique_ptr<EquivalenceOracle> o; mc::Case &c; const ref::TA target; std::string alphabet; ref::Stats &st; int n = 0;
public:
  SpyEq(std::unique_ptr<EquivalenceOracle> o, mc::Case &c, ref::TA t, std::string al, ref::Stats &st)
    : o(std::move(o)), c(c), target(std::move(t)), alphabet(std::move(al)), st(st) {}
  std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override {
    ++eqQueryCount; ++n;
    const std::string which = "hypothesis " + std::to_string(n);
    ref::TA t = target; std::string err; auto hr = lift(h, t, err);
    if (!err.empty()) { c.fail(which + " is malformed: " + err + ": " + conv::show(h)); return std::nullopt; }
    for (auto &l : hr.locs) for (auto &[ch, es] : l.out) if (!es.empty() && ch && alphabet.find(ch) == std::string::npos) c.fail(which + " has a transition on a letter outside the alphabet");
    if (std::any_of(hr.locs.begin(), hr.locs.end(), [](auto &l) { auto it = l.out.find(0); return it != l.out.end() && !it->second.empty(); })) { c.extra(2); }
    auto r = ref::product({&hr}, alphabet, [](const std::vector<bool> &) { return false; }, st);
    if (r.nondet) c.fail(which + " is not deterministic: " + ref::show(hr));
    auto cex = o->findCounterExample(h);
    c.traces();
    if (cex) {
      const int Q = 1 << 24; ref::Word w; w.w = cex->getWord(); bool exact = true;
      for (double d : cex->getDurations()) { double x = d * Q; if (x != std::floor(x) || x < 0) exact = false; w.dur.push_back((long long) std::llround(x)); }
      auto durs = w.dur; ref::TA tt = target;
      if (!exact) c.fail("counterexample with a negative or non-dyadic delay: " + conv::show(*cex));
      else {
        int sc = 1; { ref::TA t1 = target; std::string e; for (; sc <= 64; sc *= 2) { e.clear(); conv::fromLib(h, sc, e); if (e.empty()) break; } }
        if (ref::accepts(target, w, Q) == ref::accepts(hr, w, Q / sc)) c.fail("counterexample " + conv::show(*cex) + " to " + which + " does not distinguish it from the target: " + ref::show(hr));
      }
    } else {
      if (r.nondet) return cex;
      auto q = ref::equivalent(t, hr, alphabet, st);
      if (q.found) c.fail("equivalence reported for " + which + " although it differs on " + ref::show(q.witness, q.Q));
    }
    return cex;
  }
};

static void learnCase(ref::TA target, const std::string &alphabet, mc::Case &c, bool observed) {
  c.key(ref::show(target));
  auto t = conv::toLib(target);
  std::vector<Alphabet> al(alphabet.begin(), alphabet.end());
  auto complement = t.complement(al);
  complement.simplifyStrong();
  complement.simplifyWithZones();
  ref::Stats st;
  auto mem = std::make_unique<SymbolicMembershipOracle>(std::make_unique<TimedAutomatonRunner>(t));
  auto chain = std::make_unique<EquivalenceOracleChain>();
  chain->push_back(std::make_unique<ComplementTimedAutomataEquivalenceOracle>(t, complement, al));
  std::unique_ptr<EquivalenceOracle> eq = std::make_unique<EquivalenceOracleMemo>(std::move(chain), t);
  if (observed) eq = std::make_unique<SpyEq>(std::move(eq), c, target, alphabet, st);
  Learner learner{al, std::move(mem), std::move(eq)};
  auto h = learner.run();
  c.extra(1, learner.numEqQueries());
  if (learner.numEqQueries() > 1) c.nontrivial();
  std::string err; ref::TA scaled = target; auto hr = lift(h, scaled, err);
  if (!observed) {
    if (!err.empty()) { c.fail("learned automaton is malformed: " + err + ": " + conv::show(h)); return; }
    auto r = ref::equivalent(scaled, hr, alphabet, st);
    if (r.nondet) c.fail("learned automaton is not deterministic: " + ref::show(hr));
    if (r.found) c.fail("learned automaton differs from the target on " + ref::show(r.witness, r.Q) + ": " + ref::show(hr));
    c.traces();
  }
  c.states(st.states); c.transitions(st.transitions);
  if (c.idx % 997 == 5) c.sample(ref::show(target) + " => learned in " + std::to_string(learner.numEqQueries()) + " equivalence queries: " + ref::show(hr));
}

// acyclic two-clock targets: three edges in a row, guards on either clock, any reset set
static ref::TA chain2(unsigned long long i, bool big) {
  auto G = [](int clk) { return std::vector<std::vector<ref::Guard>>{{}, {{clk, ref::LT, 1}}, {{clk, ref::LE, 1}}, {{clk, ref::GE, 1}}, {{clk, ref::GT, 1}}, {{clk, ref::GE, 1}, {clk, ref::LE, 1}}}; };
  auto g0 = G(0); auto g1 = G(0); for (auto &g : G(1)) if (!g.empty()) g1.push_back(g);
  g1.push_back({{0, ref::GT, 1}, {1, ref::LT, 1}});
  if (!big) g0 = {g0[0], g0[1], g0[4], g0[5]};
  gen::Digits x(i); ref::TA a; a.nclk = 2; a.locs.resize(4);
  auto rs = [](int m) { std::vector<ref::Reset> r; if (m & 1) r.push_back({0, false, 0}); if (m & 2) r.push_back({1, false, 0}); return r; };
  a.locs[0].out['a'] = {{1, g0[x.take(g0.size())], {}}}; a.locs[0].out['a'][0].resets = rs(x.take(3));
  a.locs[1].out['a'] = {{2, g1[x.take(g1.size())], rs(x.take(4))}};
  a.locs[2].out['a'] = {{3, g1[x.take(g1.size())], {}}};
  a.locs[3].acc = true;
  return a;
}

void mc::Driver::setup(mc::Driver &d) {
  using namespace gen;
  bool th = d.thorough(), obs = d.prop == "C02";
  d.statesMean = "configurations (locations x clock regions) of the reference products explored to judge hypotheses";
  d.transMean = "transitions of those reference products";
  d.tracesMean = obs ? "equivalence queries (hypothesis + counterexample) of complete learning runs judged" : "complete learning runs whose result was compared exactly with the target";
  d.extraNames = {{1, "equivalence_queries"}, {2, "hypotheses_with_unobservable_transitions"}};
  auto split = [&](int K, int L, int A, int C) {
    Split s{K, L, A, C};
    d.add("split-" + std::to_string(K) + "clk-" + std::to_string(L) + "loc-" + std::to_string(A) + "let-c" + std::to_string(C), s.total(),
          "all deterministic targets that split one clock at c per location and letter, any target, any reset set, any accepting set", [=](mc::u64 i, mc::Case &c) { learnCase(s.make(i), letters(A), c, obs); }, 120);
  };
  auto parts = [&](const std::string &n, Parts p, int to = 120) {
    d.add(n, p.total(), "all outcomes of the guard partitions", [=](mc::u64 i, mc::Case &c) { learnCase(p.make(i), letters(p.A), c, obs); }, to);
  };
  split(1, 1, 1, 1); split(1, 1, 1, 2); split(1, 1, 2, 1); split(2, 1, 1, 1); split(2, 1, 1, 2);
  { Parts p; p.K = 1; p.L = 1; p.A = 1; p.parts = {{{lt(0, 1)}, {ge(0, 1), le(0, 1)}, {gt(0, 1), lt(0, 2)}, {ge(0, 2)}}, {{gt(0, 0), lt(0, 1)}, {gt(0, 2)}}}; p.outs = outcomes(1, {{}, {zero(0)}, {cst(0, 1)}}); parts("intervals-1clk-1loc", p); }
  { Parts p; p.K = 1; p.L = 2; p.A = 1; p.freeAcc = false; p.parts = {{{lt(0, 1)}, {ge(0, 1), le(0, 1)}, {gt(0, 1)}}}; p.outs = outcomes(2, {{}, {zero(0)}}); if (th) parts("three-way-1clk-2loc", p); }
  { Parts p; p.K = 2; p.L = 1; p.A = 1; p.parts = {{{lt(0, 1)}, {ge(0, 1), le(1, 1)}}}; p.outs = outcomes(1, {{}, {cpy(0, 1)}, {zero(0), cst(1, 1)}, {zero(1)}}); if (th) parts("copies-2clk-1loc", p); }
  { Parts p; p.K = 1; p.L = 2; p.A = 2; p.freeAcc = false; p.parts = {{{le(0, 1)}, {gt(0, 1)}}}; p.outs = {{-1, {}}, {0, {zero(0)}}, {1, {}}}; if (th) parts("two-letters-1clk-2loc", p); }
  { Split s{1, 1, 2, 1}; d.add("split-1clk-1loc-2let-other", s.total(), "the same with the letters ~ and !", [=](mc::u64 i, mc::Case &c) { learnCase(fam::relabelled(s.make(i), "ab", "~!"), "~!", c, obs); }); }
  split(1, 2, 1, 1);
  split(1, 2, 1, 2);
  if (th) split(1, 2, 1, 3);
  mc::u64 tot = (th ? 6ull : 4ull) * 3 * 12 * 4 * 12;
  d.add("chain-2clk", obs && !th ? tot / 3 : tot, "acyclic 2-clock targets: three edges in a row, guards {true,<1,<=1,>=1,>1,=1} on either clock or x0>1&x1<1, any reset set" + std::string(obs && !th ? "; the last guard one of the first four" : ""), [=](mc::u64 i, mc::Case &c) { learnCase(chain2(i, th), "a", c, obs); }, 120);
  if (th) { auto f = fam::fit(fam::wrap("split-1clk-3loc", "1 clock, 3 locations", Split{1, 3, 1, 1}), 100000); d.add(f.name, f.total, f.space, [=](mc::u64 i, mc::Case &c) { learnCase(f.make(i), "a", c, obs); }, 240); }
  d.assumptions = {"the reference region-graph model (ref.hh) implements standard timed-automaton semantics", "termination is judged as completion within the per-case time limit of 120 s (observed maximum is about 1 s)"};
}
MC_MAIN("C01")
