// C04 execution of timed automata / membership oracles; C05 urgent unobservable transitions
#include "mc.hh"
#include "conv.hh"
#include "gen.hh"
#include "ta_families.hh"
#include "membership_oracle.hh"
#include "timed_automaton_runner.hh"
using namespace learnta;
using namespace gen;

// all words over `letters` with length <= maxLen and delays from `durs` (units 1/Q)
static void words(const std::string &al, int maxLen, const std::vector<int> &durs, const std::function<void(const ref::Word &)> &f) {
  ref::Word w;
  std::function<void()> rec = [&]() {
    for (int d : durs) {
      w.dur.push_back(d); f(w);
      if ((int) w.w.size() < maxLen) for (char c : al) { w.w.push_back(c); rec(); w.w.pop_back(); }
      w.dur.pop_back();
    }
  };
  rec();
}
static void wordCase(const ref::TA &a, const std::string &al, int maxLen, int Q, const std::vector<int> &durs, mc::Case &c) {
  c.key(ref::show(a));
  auto t = conv::toLib(a);
  SULMembershipOracle hist(std::make_unique<TimedAutomatonRunner>(t));
  MembershipOracleCache cache(std::make_unique<SULMembershipOracle>(std::make_unique<TimedAutomatonRunner>(t)));
  size_t n = 0; int accd = 0; std::vector<std::pair<TimedWord, bool>> all;
  words(al, maxLen, durs, [&](const ref::Word &w) {
    if (c.failed()) return;
    bool e = ref::accepts(a, w, Q); auto lw = conv::word(w, Q); ++n; accd += e;
    c.states(w.dur.size()); c.transitions(w.dur.size() + w.w.size()); c.traces();
    if (hist.answerQuery(lw) != e) { c.fail("membership of " + ref::show(w, Q) + " is answered " + (e ? "no" : "yes")); return; }
    if (hist.count() != n) { c.fail("query count " + std::to_string(hist.count()) + " after " + std::to_string(n) + " queries"); return; }
    if (cache.answerQuery(lw) != e) { c.fail("cached membership of " + ref::show(w, Q) + " is answered " + (e ? "no" : "yes")); return; }
    all.emplace_back(lw, e);
  });
  if (cache.count() != n) c.fail("the cache passed on " + std::to_string(cache.count()) + " of " + std::to_string(n) + " distinct words");
  for (auto it = all.rbegin(); it != all.rend() && !c.failed(); ++it) {          // the same queries again, in another order
    if (cache.answerQuery(it->first) != it->second) c.fail("repeated cached query of " + conv::show(it->first) + " is answered differently");
    c.traces();
  }
  if (!c.failed() && cache.count() != n) c.fail("repeated queries reached the system under learning");
  if (accd && accd < (int) n) c.nontrivial();
  if (c.idx % 997 == 7) c.sample(ref::show(a) + ": " + std::to_string(n) + " words, " + std::to_string(accd) + " accepted");
}
// every sequence of calls to the step interface
static void stepCase(const ref::TA &a, const std::string &al, int depth, int Q, const std::vector<int> &durs, mc::Case &c) {
  c.key("calls: " + ref::show(a));
  auto t = conv::toLib(a);
  TimedAutomatonRunner run(t);
  int nops = (int) (al.size() + durs.size() + 1); std::vector<int> seq; size_t resets = 0; bool some = false;
  std::function<void()> rec = [&]() {
    if (c.failed()) return;
    if ((int) seq.size() == depth) {
      run.pre(); ++resets;
      ref::Config s = ref::start(a); std::string txt;
      for (int o : seq) {
        bool got, want; c.transitions();
        if (o < (int) al.size()) { got = run.step(al[o]); ref::act(a, s, al[o], Q); want = ref::acc(a, s); txt += std::string(" ") + al[o]; }
        else if (o < nops - 1) { double d = double(durs[o - al.size()]) / Q; got = run.step(d); ref::elapse(s, durs[o - al.size()]); want = ref::acc(a, s); txt += " " + std::to_string(d); }
        else { run.post(); run.pre(); ++resets; s = ref::start(a); got = want = false; txt += " reset"; }
        if (got != want) { c.fail("after the calls" + txt + " the answer is " + (got ? "accepting" : "rejecting")); return; }
        some |= want;
      }
      c.states(); c.traces();
      if (run.count() != resets) c.fail("run count " + std::to_string(run.count()) + " after " + std::to_string(resets) + " runs");
      return;
    }
    for (int o = 0; o < nops; ++o) { seq.push_back(o); rec(); seq.pop_back(); }
  };
  rec();
  if (some) c.nontrivial();
}
// ---------- C05 ----------
// reference: urgent firing at the earliest instant at which a guard holds; ambiguous = zero-delay cascades / ties
static std::optional<long long> earliest(const ref::Edge &e, const std::vector<long long> &v, int Q) {
  long long t = 0;
  for (auto &g : e.guard) if (g.op == ref::GE) t = std::max(t, (long long) g.c * Q - v[g.x]);
  auto u = v; for (auto &x : u) x += t;
  if (!ref::enabled(e, u, Q)) return std::nullopt;    // left-closed guards: enabled at t or never
  return t;
}
static bool urgentElapse(const ref::TA &a, ref::Config &s, long long d, int Q, bool &ambiguous, int &fired) {
  while (s.loc >= 0) {
    auto it = a.locs[s.loc].out.find(0); const ref::Edge *best = nullptr; long long bt = 0;
    if (it != a.locs[s.loc].out.end()) for (auto &e : it->second) {
      auto t = earliest(e, s.v, Q); if (!t || *t > d) continue;
      if (best && *t == bt) ambiguous = true;
      if (!best || *t < bt) { best = &e; bt = *t; }
    }
    if (!best) break;
    if (d == 0) { ambiguous = true; return true; }
    if (fired > 60) { ambiguous = true; return true; }   // zero-time cycle
    ref::elapse(s, bt); d -= bt; s.v = ref::fire(*best, s.v, Q); s.loc = best->target; ++fired;
  }
  ref::elapse(s, d);
  return true;
}
static void urgentCase(const ref::TA &a, int maxLen, int Q, const std::vector<int> &durs, mc::Case &c) {
  c.key("urgent: " + ref::show(a));
  auto t = conv::toLib(a);
  SULMembershipOracle o(std::make_unique<TimedAutomatonRunner>(t)); int firedTotal = 0;
  words("a", maxLen, durs, [&](const ref::Word &w) {
    if (c.failed()) return;
    bool amb = false; ref::Config s = ref::start(a); int fired = 0;
    urgentElapse(a, s, w.dur[0], Q, amb, fired);
    for (size_t i = 0; i < w.w.size(); ++i) { ref::act(a, s, w.w[i], Q); urgentElapse(a, s, w.dur[i + 1], Q, amb, fired); }
    if (amb) { c.extra(0); return; }
    bool e = ref::acc(a, s); firedTotal += fired;
    c.states(w.dur.size() + fired); c.transitions(w.dur.size() + w.w.size() + fired); c.traces();
    if (o.answerQuery(conv::word(w, Q)) != e) c.fail("membership of " + ref::show(w, Q) + " is answered " + (e ? "no" : "yes") + " (" + std::to_string(fired) + " urgent transitions)");
  });
  if (firedTotal) c.nontrivial();
  if (c.idx % 97 == 7) c.sample(ref::show(a));
}

void mc::Driver::setup(mc::Driver &d) {
  bool th = d.thorough();
  d.statesMean = "configurations of the exact reference run visited"; d.transMean = "delays and letters executed on the reference run"; d.tracesMean = "answers of the implementation compared with the reference run";
  if (d.prop == "C04") {
    Parts a3; a3.K = 1; a3.L = 2; a3.A = 1; a3.parts = {{{le(0, 1)}, {gt(0, 1)}}}; a3.outs = outcomes(2, {{}, {zero(0)}});
    Parts a4; a4.K = 1; a4.L = 2; a4.A = 1; a4.freeAcc = false; a4.parts = {{{lt(0, 1)}, {ge(0, 1), le(0, 1)}, {gt(0, 1), lt(0, 2)}}}; a4.outs = {{-1, {}}, {0, {zero(0)}}, {1, {}}, {1, {cst(0, 1)}}};
    Parts l2; l2.K = 1; l2.L = 2; l2.A = 2; l2.freeAcc = false; l2.parts = {{{lt(0, 1)}, {ge(0, 1)}}}; l2.outs = {{-1, {}}, {0, {}}, {1, {zero(0)}}};
    auto add = [&](const std::string &n, const Parts &p, int len, int Q, std::vector<int> durs) {
      d.add(n, p.total(), "all automata; all words of length <= " + std::to_string(len) + " with " + std::to_string(durs.size()) + " delays (unit 1/" + std::to_string(Q) + ")", [=](mc::u64 i, mc::Case &c) { wordCase(p.make(i), letters(p.A), len, Q, durs, c); });
    };
    add("1clk-2loc", a3, 3, 2, {0, 1, 2, 3}); add("1clk-intervals", a4, 2, 2, {0, 1, 2, 3, 4}); add("2letters", l2, 2, 2, {0, 1, 2, 3});
    // every simultaneous assignment of two clocks, in both listing orders, observed by a later guard
    std::vector<std::vector<ref::Reset>> maps;
    for (int m0 = 0; m0 < 5; ++m0) for (int m1 = 0; m1 < 5; ++m1) for (int o = 0; o < 2; ++o) {
      auto mk = [](int x, int m) { return m == 0 ? std::vector<ref::Reset>{} : m == 1 ? std::vector<ref::Reset>{zero(x)} : m == 2 ? std::vector<ref::Reset>{cst(x, 1)} : m == 3 ? std::vector<ref::Reset>{cpy(x, 1 - x)} : std::vector<ref::Reset>{cpy(x, x)}; };
      auto a = mk(0, m0), b = mk(1, m1); if (o) std::swap(a, b); a.insert(a.end(), b.begin(), b.end()); maps.push_back(a);
    }
    std::vector<std::vector<Guard>> gs = {{lt(0, 1)}, {ge(0, 1), le(0, 1)}, {gt(1, 1)}, {le(1, 1), ge(0, 1)}, {gt(0, 1), lt(1, 1)}, {ge(1, 2)}, {le(0, 2), gt(0, 1)}, {}};
    auto nm = maps.size(), ng = gs.size();
    d.add("assignments-2clk", nm * nm * ng, "two consecutive simultaneous assignments (25 maps x 2 listing orders each) observed by 8 guards; words of length 3", [=](mc::u64 i, mc::Case &c) {
      Digits x(i); ref::TA a; a.nclk = 2; a.locs.resize(4); a.locs[3].acc = true;
      a.locs[0].out['a'].push_back({1, {}, maps[x.take(nm)]}); a.locs[1].out['a'].push_back({2, {}, maps[x.take(nm)]}); a.locs[2].out['a'].push_back({3, gs[x.take(ng)], {}});
      wordCase(a, "a", 3, 2, {0, 1, 3}, c); });
    // call sequences
    auto calls = [&](const std::string &n, const Parts &p, int depth, std::vector<int> durs) {
      d.add(n, p.total(), "all automata; all sequences of " + std::to_string(depth) + " calls (letter, delays, new run)", [=](mc::u64 i, mc::Case &c) { stepCase(p.make(i), letters(p.A), depth, 2, durs, c); });
    };
    calls("calls-1clk", a3, th ? 6 : 5, {1, 2}); calls("calls-2letters", l2, th ? 6 : 4, {1, 2});
    if (th) for (auto f : {fam::one(false), fam::two(false), fam::larger()}) d.add(f.name, f.total, f.space + "; words of length <= 2", [=](mc::u64 i, mc::Case &c) { wordCase(f.make(i), f.alphabet, 2, 2, {0, 1, 2, 3, 4}, c); });
    d.add("empty", 1, "the automaton without locations", [=](mc::u64 i, mc::Case &c) {
      c.key("empty"); TimedAutomaton t; SULMembershipOracle o(std::make_unique<TimedAutomatonRunner>(t)); size_t n = 0;
      words("ab", 2, {0, 1, 3}, [&](const ref::Word &w) { c.traces(); c.states(); c.transitions(); if (o.answerQuery(conv::word(w, 2))) c.fail("the automaton without locations accepts " + ref::show(w, 2)); if (o.count() != ++n) c.fail("wrong query count"); }); });
  } else {
    d.extraNames = {{0, "words_skipped_zero_delay_cascade_or_tie"}};
    std::vector<std::vector<Guard>> eg = {{ge(0, 1)}, {ge(0, 1), le(0, 1)}, {ge(0, 1), le(1, 1)}, {ge(0, 1), lt(1, 1)}, {ge(0, 1), lt(0, 2)}, {ge(1, 1), le(0, 2)}, {ge(0, 1), ge(1, 2)}, {lt(0, 1)}, {le(0, 1)}, {}, {ge(1, 2), lt(1, 2)}, {le(1, 1), ge(0, 2)}, {ge(0, 2), ge(1, 1), le(1, 3)}};
    std::vector<std::vector<ref::Reset>> rs = {{}, {zero(0)}, {zero(1)}, {zero(0), cst(1, 1)}, {cpy(0, 1), zero(1)}};
    std::vector<std::vector<Guard>> ag = {{}, {ge(0, 1), le(0, 1)}, {lt(1, 1)}, {gt(0, 1)}};
    auto ne = eg.size(), nr = rs.size(), na = ag.size();
    // loc0 --eps--> loc1; letter from loc0 and from loc1; optional eps back loc1 -> loc0 with guard x0>=1 and reset
    d.add("one-eps", ne * nr * na * na * 2 * 2 * 2, "2 clocks; one urgent transition (13 guards x 5 assignments), letters before and after it, optional urgent way back; all words of length <= 2 with half-integer delays <= 3", [=](mc::u64 i, mc::Case &c) {
      Digits x(i); ref::TA a; a.nclk = 2; a.locs.resize(3); a.locs[2].acc = true; a.locs[x.take(2)].acc = true;
      a.locs[0].out[0].push_back({1, eg[x.take(ne)], rs[x.take(nr)]});
      a.locs[0].out['a'].push_back({2, ag[x.take(na)], {}}); a.locs[1].out['a'].push_back({x.take(2) ? 0 : 2, ag[x.take(na)], {zero(1)}});
      if (x.take(2)) a.locs[1].out[0].push_back({0, {ge(1, 1), le(1, 1)}, {zero(1), zero(0)}});
      urgentCase(a, 2, 2, {0, 1, 2, 3, 4, 5, 6}, c); });
    d.add("two-eps", ne * ne * nr * 2, "two urgent transitions from one location", [=](mc::u64 i, mc::Case &c) {
      Digits x(i); ref::TA a; a.nclk = 2; a.locs.resize(4); a.locs[1].acc = true;
      a.locs[3].out['a'].push_back({0, {}, {zero(1)}}); a.init = 3;
      a.locs[0].out[0].push_back({1, eg[x.take(ne)], rs[x.take(nr)]}); a.locs[0].out[0].push_back({2, eg[x.take(ne)], {}});
      a.locs[2].out['a'].push_back({1, {lt(0, 2)}, {}}); if (x.take(2)) a.locs[1].out['a'].push_back({3, {ge(0, 1)}, {zero(0)}});
      urgentCase(a, 2, 2, {0, 1, 2, 3, 4, 5, 6}, c); });
  }
  d.assumptions = {"delays are multiples of 1/2, which are exact in binary floating point"};
}
MC_MAIN("C04")
