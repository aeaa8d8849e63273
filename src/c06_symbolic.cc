// C06 symbolic membership queries return exactly the accepted part of a language of words
#include "mc.hh"
#include "conds.hh"
#include "conv.hh"
#include "gen.hh"
#include "ta_families.hh"
#include "symbolic_membership_oracle.hh"
#include "timed_automaton_runner.hh"
using namespace learnta; using mc::Case; using mc::u64; using dbm::D; using rs::Set; using rs::Space;
struct Cond { D d; Set s; TimedCondition t; };
static std::vector<Cond> conds(int n, int C, int k, int M, bool capped) {
  std::vector<Cond> r; const Space &sp = tc::space(n, M);
  for (auto &d : tc::all(n, C, k, capped)) { if (d.at(1, 0) > 2 * M + 1) continue; r.push_back({d, d.set(sp), tc::make(d)}); }
  return r;
}
struct Lists { int M[4]; std::vector<Cond> v[4]; };
// exact acceptance of every region of words with the given letters
static Set accepted(const ref::TA &a, const std::string &w, const Space &sp) {
  return sp.filter([&](const rs::Pt &p) { if (!tc::mono(p)) return false; ref::Word x; x.w = w; for (size_t i = 0; i < p.size(); ++i) x.dur.push_back(p[i] - (i + 1 < p.size() ? p[i + 1] : 0)); return ref::accepts(a, x, sp.Q); });
}
static void run(const ref::TA &a, const std::string &al, const Lists &L, int maxN, Case &c) {
  c.key(ref::show(a)); auto t = conv::toLib(a); SymbolicMembershipOracle o(std::make_unique<TimedAutomatonRunner>(t)); size_t after = 0; bool some = false;
  for (int round = 0; round < 2; ++round) for (int n = 1; n <= maxN; ++n) {
    std::vector<std::string> ws{""}; for (int i = 1; i < n; ++i) { std::vector<std::string> x; for (auto &w : ws) for (char l : al) x.push_back(w + l); ws = x; }
    const Space &sp = tc::space(n, L.M[n]);
    for (auto &w : ws) {
      Set acc = accepted(a, w, sp); size_t N = L.v[n].size();
      for (size_t q = 0; q < N; ++q) {
        const Cond &k = L.v[n][round ? N - 1 - q : q]; ElementaryLanguage e{w, k.t}; TimedConditionSet r = o.query(e); c.transitions(); Set want = rs::both(acc, k.s), got = sp.none();
        for (auto &x : r.getConditions()) { if ((int) x.size() != n) return c.fail("a returned condition has a wrong number of variables"); D g = tc::read(x); Set s = g.set(sp); if (rs::empty(s)) return c.fail("an empty condition is returned"); if (g.at(1, 0) > 2 * L.M[n] + 1) return c.fail("an unbounded condition is returned"); for (size_t z = 0; z < s.size(); ++z) { if (got[z] & s[z]) return c.fail("the returned conditions overlap"); got[z] |= s[z]; } }
        c.traces(); if (got != want) { Set x = rs::minus(got, want); bool ex = !rs::empty(x); if (!ex) x = rs::minus(want, got); return c.fail("query (" + w + ", " + tc::show(k.d) + ")" + (round ? " asked again" : "") + " " + (ex ? "includes" : "misses") + " the words at " + sp.show(rs::first(x)) + " (T_{i,N})"); }
        if (!rs::empty(got) && got != k.s) some = true; if (r.empty() != rs::empty(want)) return c.fail("empty() is wrong");
      }
      // single words
      if (!round) for (size_t k = 0; k < sp.size(); k += 3) if (tc::mono(sp.pts[k])) { c.transitions(); if (o.answerQuery(TimedWord{w, tc::durations(tc::real(sp.pts[k], sp.Q))}) != rs::get(acc, k)) return c.fail("membership of the word at " + sp.show(k) + " is wrong"); }
    }
    c.states(ws.size());
    if (!round && n == maxN) after = o.count();
  }
  if (o.count() != after) return c.fail("asking everything again sent " + std::to_string(o.count() - after) + " more words to the system under learning");
  if (some) c.nontrivial();
}
void mc::Driver::setup(mc::Driver &d) {
  bool th = d.thorough(); d.statesMean = "letter sequences per automaton"; d.transMean = "symbolic (and plain) membership queries"; d.tracesMean = "answers compared with exact acceptance of every region";
  static Lists S; S.M[1] = 3; S.v[1] = conds(1, 3, 9, 3, false); S.M[2] = 2; S.v[2] = conds(2, 2, th ? 9 : 3, 2, true); S.M[3] = 1; S.v[3] = conds(3, 1, th ? 9 : 3, 1, true);
  static Lists B; B.M[1] = 3; B.v[1] = conds(1, 3, 9, 3, false); B.M[2] = 3; B.v[2] = conds(2, 3, 2, 3, true); B.M[3] = 2; B.v[3] = conds(3, 2, 1, 2, true);
  auto add = [&](const fam::Named &f0, const Lists *L, int n, u64 cap) { auto f = fam::fit(f0, cap); d.add(f.name, f.total, f.space + "; " + std::to_string(L->v[1].size()) + "/" + std::to_string(L->v[2].size()) + (n > 2 ? "/" + std::to_string(L->v[3].size()) : "") + " bounded languages per word of length 0/1" + (n > 2 ? "/2" : "") + ", each asked twice", [f, L, n](u64 i, Case &c) { run(f.make(i), f.alphabet, *L, n, c); }, 120, 1); };
  u64 k = th ? 20 : 1;
  add(fam::single(), &S, 3, 1000); add(fam::split21(), &S, 3, 1000);
  add(fam::one(true), &S, 3, 2500 * k); add(fam::two(true), &S, 3, 2000 * k); add(fam::two(false), &B, 3, 1500 * k); add(fam::larger(), &B, 3, 1500 * k); add(fam::letters2(), &S, 3, 2000 * k); add(fam::three(), &S, 3, 1500 * k); add(fam::split2(), &S, 3, 1500 * k); add(fam::tiny3clk(), &S, 3, 1500 * k);
}
MC_MAIN("C06")
