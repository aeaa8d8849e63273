// C31 the recognizable language read off an observation table; C30 counterexample analysis
#include "mc.hh"
#include "conds.hh"
#include "conv.hh"
#include "gen.hh"
#include "ta_families.hh"
#include "observation_table.hh"
#include "counterexample_analyzer.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "timed_automaton_runner.hh"
using namespace learnta; using mc::Case; using mc::u64; using rs::Space;
static ref::TA lift(const TimedAutomaton &h, int &sc, std::string &err) { ref::TA r; for (sc = 1; sc <= 64; sc *= 2) { err.clear(); r = conv::fromLib(h, sc, err); if (err.empty()) return r; } return r; }
struct W { std::string w; std::vector<int> p; int Q; bool in; TimedWord tw; };
static ref::Word word(const TimedWord &t, int Q, bool &exact) { ref::Word w; w.w = t.getWord(); for (double d : t.getDurations()) { double x = d * Q; if (x != std::floor(x) || x < 0) exact = false; w.dur.push_back((long long) std::llround(x)); } return w; }
static bool inRegion(const ElementaryLanguage &l, const TimedWord &w) {      // membership in a condition, by its reported bounds
  if (l.getWord() != w.getWord()) return false; const auto &t = l.getTimedCondition(); size_t n = w.getDurations().size();
  for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = i; j < n; ++j) { s += w.getDurations()[j]; auto u = t.getUpperBound(i, j), d = t.getLowerBound(i, j); if (u.second ? s > u.first : s >= u.first) return false; if (d.second ? -s > d.first : -s >= d.first) return false; } }
  return true;
}
static void tables(const ref::TA &target, const std::string &al, const std::vector<int> &M, bool cexMode, Case &c) {
  c.key(ref::show(target)); auto t = conv::toLib(target); std::vector<Alphabet> av(al.begin(), al.end());
  SymbolicMembershipOracle mem(std::make_unique<TimedAutomatonRunner>(t));
  ObservationTable T(av, std::make_unique<SymbolicMembershipOracle>(std::make_unique<TimedAutomatonRunner>(t)));
  auto complement = t.complement(av); complement.simplifyStrong(); complement.simplifyWithZones(); ComplementTimedAutomataEquivalenceOracle eq(t, complement, av);
  std::vector<W> ws; for (size_t n = 1; n <= M.size(); ++n) { std::vector<std::string> ls{""}; for (size_t i = 1; i < n; ++i) { std::vector<std::string> x; for (auto &w : ls) for (char l : al) x.push_back(w + l); ls = x; } const Space &sp = tc::space((int) n, M[n - 1]); for (auto &w : ls) for (auto &p : sp.pts) if (tc::mono(p)) { W x{w, p, sp.Q, false, TimedWord{w, tc::durations(tc::real(p, sp.Q))}}; bool e = true; x.in = ref::accepts(target, word(x.tw, 1024, e), 1024); if (!e) return c.fail("harness"); ws.push_back(x); } }
  const int Q = 1 << 20;
  for (int round = 0; round < 60; ++round) {
    for (;;) { bool ok = T.close(); ok = ok && T.consistent(); ok = ok && T.exteriorConsistent(); ok = ok && T.timeSaturate(); if (ok) break; }
    auto h = T.generateHypothesis(); c.states(); int sc; std::string err; auto hr = lift(h, sc, err); if (!err.empty()) return c.fail("hypothesis " + std::to_string(round + 1) + ": " + err);
    auto R = T.toRecognizable(); std::string nm = "hypothesis " + std::to_string(round + 1);
    int shown = 0;
    for (auto &w : ws) {
      bool ex = true; bool hyp = ref::accepts(hr, word(w.tw, 1024, ex), 1024 / sc);
      // follow the morphisms to a word of the table
      std::vector<TimedWord> chain{w.tw}; std::vector<TimedWord> suf{TimedWord{}}; c.transitions();
      while (!R.inPrefixes(chain.back())) {
        auto s = R.split(chain.back()); if (!s) return c.fail(nm + ": " + conv::show(chain.back()) + " has no prefix on which the morphism is defined");
        const auto &pre = s->prefix; const auto &cur = chain.back();
        if (!(pre + s->suffix == cur) && [&] { auto q = pre + s->suffix; if (q.getWord() != cur.getWord()) return true; for (size_t i = 0; i < cur.getDurations().size(); ++i) if (std::abs(q.getDurations()[i] - cur.getDurations()[i]) > 1e-9) return true; return false; }()) return c.fail(nm + ": splitting " + conv::show(cur) + " gives " + conv::show(pre) + " and " + conv::show(s->suffix));
        for (double d : s->suffix.getDurations()) if (d < 0) return c.fail(nm + ": negative delay in the suffix of " + conv::show(cur));
        if (!s->morphism.inDomain(pre) || !inRegion(s->morphism.getDomain(), pre)) return c.fail(nm + ": the prefix " + conv::show(pre) + " is not in the domain of its morphism");
        TimedWord img = s->morphism.maps(pre); if (!R.inPrefixes(img)) return c.fail(nm + ": " + conv::show(pre) + " is mapped to " + conv::show(img) + ", which is no row of the table");
        TimedWord nx = img + s->suffix; suf.push_back(s->suffix); chain.push_back(nx); c.transitions();
        if (chain.size() > 60) return c.fail(nm + ": reducing " + conv::show(w.tw) + " does not end");
      }
      bool in = R.contains(w.tw); c.traces();
      if (!cexMode) {
        if (in != R.isFinal(chain.back())) return c.fail(nm + ": contains(" + conv::show(w.tw) + ") differs from the row it is reduced to");
        bool e2 = true; auto lw = word(chain.back(), Q, e2); if (e2 && ref::accepts(target, lw, Q) != in) return c.fail(nm + ": the row of " + conv::show(chain.back()) + " does not have the acceptance of the target");
        if (in != hyp && shown++ < 1) c.fail(nm + ": recognizable language and automaton differ on " + conv::show(w.tw) + " (automaton " + std::to_string(hyp) + "): " + ref::show(hr));
      } else if (w.in != in) {
        c.nontrivial(); c.extra(1);
        auto r = analyzeCEX(w.tw, mem, R); if (!r) return c.fail(nm + ": no suffix for the counterexample " + conv::show(w.tw));
        auto acc = [&](const TimedWord &x) { bool e = true; auto y = word(x, Q, e); if (!e) return mem.answerQuery(x); return ref::accepts(target, y, Q); };
        auto good = [&](const TimedWord &s) { for (size_t i = 1; i < chain.size(); ++i) if (suf[i] == s && acc(chain[i - 1]) != acc(chain[i])) return true; return false; };
        if (!good(*r)) return c.fail(nm + ": the suffix " + conv::show(*r) + " of counterexample " + conv::show(w.tw) + " distinguishes no word from its image");
        std::vector<BackwardRegionalElementaryLanguage> have{BackwardRegionalElementaryLanguage::fromTimedWord(*r)};
        auto r2 = analyzeCEX(w.tw, mem, R, have); bool other = false; for (size_t i = 1; i < chain.size(); ++i) if (acc(chain[i - 1]) != acc(chain[i]) && !inRegion(have[0], suf[i])) other = true;
        if (r2.has_value() != other) return c.fail(nm + ": with the suffix " + conv::show(*r) + " known, " + (other ? "the other distinguishing suffix is not found" : "a suffix is invented"));
        if (r2 && (!good(*r2) || inRegion(have[0], *r2))) return c.fail(nm + ": " + conv::show(*r2) + " is not a new distinguishing suffix");
      }
    }
    auto cex = eq.findCounterExample(h); if (!cex) { if (!cexMode && round) c.nontrivial(); return; }
    T.handleCEX(*cex);
  }
  c.fail("no end after 60 hypotheses");
}
// ----- C32: the complete loop with an oracle that picks among all short counterexamples
static void histories(const ref::TA &target, const std::string &al, const std::vector<int> &M, u64 choice, Case &c) {
  c.key(ref::show(target) + " choices " + std::to_string(choice)); auto t = conv::toLib(target); std::vector<Alphabet> av(al.begin(), al.end()); ref::Stats st;
  ObservationTable T(av, std::make_unique<SymbolicMembershipOracle>(std::make_unique<TimedAutomatonRunner>(t)));
  std::vector<W> ws; for (size_t n = 1; n <= M.size(); ++n) { std::vector<std::string> ls{""}; for (size_t i = 1; i < n; ++i) { std::vector<std::string> x; for (auto &w : ls) for (char l : al) x.push_back(w + l); ls = x; } const Space &sp = tc::space((int) n, M[n - 1]); for (auto &w : ls) for (auto &p : sp.pts) if (tc::mono(p)) { W x{w, p, sp.Q, false, TimedWord{w, tc::durations(tc::real(p, sp.Q))}}; bool e = true; x.in = ref::accepts(target, word(x.tw, 1024, e), 1024); ws.push_back(x); } }
  std::string hist;
  for (int round = 0; round < 80; ++round) {
    for (;;) { bool ok = T.close(); ok = ok && T.consistent(); ok = ok && T.exteriorConsistent(); ok = ok && T.timeSaturate(); if (ok) break; }
    auto h = T.generateHypothesis(); h.simplifyStrong(); h.simplifyWithZones(); c.states(); int sc; std::string err; auto hr = lift(h, sc, err); std::string nm = "after counterexamples" + hist + ": hypothesis " + std::to_string(round + 1); if (!err.empty()) return c.fail(nm + " is malformed: " + err);
    auto pr = ref::product({&hr}, al, [](const std::vector<bool> &) { return false; }, st); if (pr.nondet) return c.fail(nm + " is not deterministic: " + ref::show(hr));
    std::vector<const W *> bad; for (auto &w : ws) { bool ex = true; if (ref::accepts(hr, word(w.tw, 1024, ex), 1024 / sc) != w.in) bad.push_back(&w); } c.transitions(ws.size());
    TimedWord cex;
    if (!bad.empty()) { static const double f[] = {0, 1, 0.5, 0.25}; int k = choice % 4; choice = choice / 4 + (k << 6); cex = bad[(size_t) (f[k] * (bad.size() - 1))]->tw; }
    else { ref::TA tt = target; ref::scaleBy(tt, sc); auto q = ref::equivalent(tt, hr, al, st); c.traces(); if (!q.found) { if (round > 1) c.nontrivial(); c.extra(1, round); return; }
      std::vector<double> dv; for (auto x : q.witness.dur) dv.push_back(double(x) / q.Q / sc); cex = TimedWord{q.witness.w, dv}; }
    hist += " (" + conv::show(cex) + ")"; T.handleCEX(cex);
  }
  c.fail("no end after 80 counterexamples:" + hist.substr(0, 400));
}
void mc::Driver::setup(mc::Driver &d) {
  bool th = d.thorough(), cex = d.prop == "C30";
  d.statesMean = "closed and consistent observation tables"; d.transMean = "words reduced along morphisms (steps)"; d.tracesMean = "words compared"; d.extraNames = {{1, "counterexamples_analysed"}};
  if (d.prop == "C32") { d.statesMean = "hypotheses"; d.transMean = "words compared between hypothesis and target"; d.tracesMean = "runs whose result was compared exactly with the target"; d.extraNames = {{1, "counterexamples_handled"}}; }
  auto add = [&](const fam::Named &f0, std::vector<int> M, u64 cap) {
    if (d.prop == "C32") { auto f = fam::fit(f0, cap / (d.thorough() ? 4 : 30)); d.add(f.name, f.total * 64, f.space + "; all 64 sequences of three choices (first, last, middle, first quarter) among the distinguishing words with at most " + std::to_string(M.size() - 1) + " letters", [f, M](u64 i, Case &c) { histories(f.make(i / 64), f.alphabet, M, i % 64, c); }, 200, 8); return; } auto f = fam::fit(f0, cap); d.add(f.name, f.total, f.space + "; at every hypothesis of the learning run, all regions of timed words with at most " + std::to_string(M.size() - 1) + " letters", [f, M, cex](u64 i, Case &c) { tables(f.make(i), f.alphabet, M, cex, c); }, 200, 1); };
  u64 k = th ? 12 : 1;
  add(fam::wrap("split-1clk-1loc-c2", "1 clock, 1 location, split at 2", fam::Split{1, 1, 1, 2}), {4, 3, 2}, 1000);
  add(fam::wrap("split-1clk-2loc", "1 clock, 2 locations, split at 1", fam::Split{1, 2, 1, 1}), {3, 3, 2}, th ? 10000 : 2600);
  add(fam::wrap("split-1clk-2loc-c2", "1 clock, 2 locations, split at 2", fam::Split{1, 2, 1, 2}), {4, 3, 2}, th ? 10000 : 1600);
  add(fam::wrap("split-2clk-1loc", "2 clocks, 1 location, split at 1", fam::Split{2, 1, 1, 1}), {3, 3, 2, 1}, 1000);
  add(fam::wrap("split-1clk-1loc-2let", "1 clock, 1 location, 2 letters", fam::Split{1, 1, 2, 1}), {3, 2, 2}, 1000);
  { using namespace fam; std::vector<std::vector<ref::Guard>> g{{}, {lt(0, 1)}, {gt(0, 1)}, {ge(0, 1), le(0, 1)}}, g2 = g; g2.push_back({le(1, 1)}); g2.push_back({gt(1, 1)}); g2.push_back({gt(0, 1), lt(1, 1)});
    std::vector<std::vector<ref::Reset>> r{{}, {zero(0)}, {zero(1)}, {zero(0), zero(1)}};
    add(fam::wrap("chain-2clk", "acyclic 2-clock targets: three edges in a row, guards on either clock, any reset set", Chain{2, 3, {g, g2, g2}, {r, r, {{}}}, false}), {2, 2, 1, 1}, 2000 * k); }
}
MC_MAIN("C31")
