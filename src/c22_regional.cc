// C22 forward regional languages; C23 backward regional languages; C24 fractional orders
#include "mc.hh"
#include "conds.hh"
#include "forward_regional_elementary_language.hh"
#include "conv.hh"
#include "gen.hh"
using namespace learnta; using mc::Case; using mc::u64; using dbm::D; using rs::Set; using rs::Space;
using FRL = ForwardRegionalElementaryLanguage; using BRL = BackwardRegionalElementaryLanguage;
// letters of the word with n durations, variant v
static std::string letters(int n, int v = 0) { std::string s; for (int i = 0; i + 1 < n; ++i) s.push_back((i + v) % 2 ? 'b' : 'a'); return s; }
// several concrete representatives of a region: ranks become different dyadic fractions
static std::vector<double> rep(const rs::Pt &p, int Q, int v) { static const double F[3][6] = {{0, .125, .25, .375, .5, .625}, {0, .5, .75, .875, .9375, .96875}, {0, .015625, .03125, .5, .984375, .9921875}}; std::vector<double> r; for (int x : p) r.push_back(x / Q + F[v][x % Q]); return r; }
static TimedWord word(const std::string &w, const std::vector<double> &x) { return TimedWord{w, tc::durations(x)}; }
struct Reg { int n, M; const Space &sp; std::vector<int> at; std::map<int, int> of; std::vector<TimedWord> w; std::vector<FRL> f; std::vector<BRL> b;
  Reg(int n_, int M_, int v = 0) : n(n_), M(M_), sp(tc::space(n_, M_)) { for (size_t k = 0; k < sp.size(); ++k) if (tc::mono(sp.pts[k])) { of[(int) k] = (int) at.size(); at.push_back((int) k); w.push_back(word(letters(n, v), rep(sp.pts[k], sp.Q, 0))); } }
  void build(bool back) { for (auto &x : w) if (back) b.push_back(BRL::fromTimedWord(x)); else f.push_back(FRL::fromTimedWord(x)); } };
static const Reg &reg(int n, int M, bool back = false) { static std::map<std::array<int, 3>, Reg *> m; auto &p = m[{n, M, back}]; if (!p) { p = new Reg(n, M); p->build(back); } return *p; }
template<class T> static std::string str(const T &x) { std::ostringstream s; s << x; return s.str(); }
static bool single(const TimedCondition &t, const Space &sp, int k) { return t == TimedCondition(rep(sp.pts[k], sp.Q, 0)); }

static void forward(int n, int M, u64 i, Case &c) {
  const Reg &R = reg(n, M); const Space &sp = R.sp; int k = R.at[i]; const auto &p = sp.pts[k]; const FRL &f = R.f[i]; std::string w = letters(n); c.key("region " + sp.show(k) + " of (T_{i,N})"); c.states(); c.nontrivial();
  if (f.getWord() != w || !single(f.getTimedCondition(), sp, k) || !f.isSimple() || f.wordSize() != w.size()) return c.fail("the region of a word is " + str(f));
  for (int v = 0; v < 3; ++v) { FRL g = FRL::fromTimedWord(word(w, rep(p, sp.Q, v))); c.transitions(); if (!(g == f) || hash_value(g) != hash_value(f)) return c.fail("two words of the same region give different languages: " + str(g)); if (!f.contains(word(w, rep(p, sp.Q, v)))) return c.fail("a word of the region is not contained"); }
  for (size_t j = 0; j < R.at.size(); ++j) { c.traces(); if ((R.f[j] == f) != (i == j)) return c.fail("equality with region " + sp.show(R.at[j])); if (f.contains(R.w[j]) != (i == j)) return c.fail("contains a word of region " + sp.show(R.at[j])); }
  if (n > 1) { FRL o = FRL::fromTimedWord(word(letters(n, 1), rep(p, sp.Q, 0))); if (o == f) return c.fail("languages over different letters compare equal"); }
  // successors
  int s = sp.succ[k]; if (s >= 0) { const FRL &want = R.f[R.of.at(s)]; c.transitions(2); if (!(f.successor() == want)) return c.fail("continuous successor is " + str(f.successor()) + ", expected " + str(want)); FRL g = f; g.successorAssign(); if (!(g == want)) return c.fail("successorAssign gives " + str(g) + ", expected " + str(want)); if (hash_value(g) != hash_value(want)) return c.fail("equal regions hash differently"); }
  if (n < 4) for (char a : {'a', 'b'}) { auto x = rep(p, sp.Q, 0); x.push_back(0); FRL want = FRL::fromTimedWord(word(w + a, x)); c.transitions(); if (!(f.successor(a) == want)) return c.fail("discrete successor is " + str(f.successor(a)) + ", expected " + str(want)); if (!f.successor(a).immediatePrefix() || !(*f.successor(a).immediatePrefix() == f)) return c.fail("the prefix of the discrete successor is not the region"); }
  bool eq = false; for (int x : p) eq |= x % sp.Q == 0; if (f.hasEqualityN() != eq) return c.fail("hasEqualityN is wrong");
  // prefixes, down to the empty word
  std::vector<FRL> chain{f}; { auto x = p; std::string v = w; const Space *q = &sp; int m = n;
    for (;;) {
      if (x.back() > 0) { int z = q->pred[q->find(std::vector<long long>(x.begin(), x.end()), q->Q)]; x = q->pts[z]; }
      else if (m > 1) { x.pop_back(); v.pop_back(); --m; const Space *nq = &tc::space(m, M); int z = nq->find(std::vector<long long>(x.begin(), x.end()), q->Q); q = nq; x = q->pts[z]; }
      else break;
      chain.push_back(FRL::fromTimedWord(word(v, rep(x, q->Q, 0)))); } }
  auto ip = f.immediatePrefix(); if (ip.has_value() != (chain.size() > 1) || (ip && !(*ip == chain[1]))) return c.fail("immediate prefix is " + (ip ? str(*ip) : "none"));
  auto ps = f.prefixes(); if (ps.size() != chain.size()) return c.fail("has " + std::to_string(ps.size()) + " prefixes, expected " + std::to_string(chain.size()));
  for (size_t j = 0; j < ps.size(); ++j) if (!(ps[j] == chain[chain.size() - 1 - j])) return c.fail("prefix " + std::to_string(j) + " is " + str(ps[j])); c.transitions(ps.size());
  // suffixes: the region is covered by prefix . suffix, and the suffix is the region of a word
  for (auto &q : chain) {
    BRL sx = f.suffix(q); c.transitions(); c.traces(); if (sx.getWord() != w.substr(q.wordSize())) return c.fail("the suffix after " + str(q) + " has other letters"); if (!sx.isSimple()) return c.fail("the suffix after " + str(q) + " is not simple");
    D g = tc::read(q.getTimedCondition() + sx.getTimedCondition()), d = tc::read(f.getTimedCondition()); for (size_t z = 0; z < g.m.size(); ++z) if (d.m[z] > g.m[z]) return c.fail("the region is not within prefix . suffix for prefix " + str(q) + ", suffix " + str(sx));
    BRL rr = BRL::fromTimedWord(sx.sample()); if (!(rr == sx) || hash_value(rr) != hash_value(sx)) return c.fail("the suffix after " + str(q) + " is " + str(sx) + ", which differs from the language of its own word " + str(rr));
  }
}
// assignments to regions
static void assign(int n, int M, int k, u64 i, Case &c) {
  const Reg &R = reg(n, M); const Space &sp = R.sp; const auto &p = sp.pts[R.at[i]]; const FRL &f = R.f[i]; c.key("assignments to region " + sp.show(R.at[i]) + " into " + std::to_string(k) + " clocks"); c.states();
  static const double cs[] = {0, 1, 2}; int opt = 3 + n + 1; u64 tot = 1; for (int j = 0; j < k; ++j) tot *= opt; auto x = rep(p, sp.Q, 0);
  for (u64 a = 0; a < tot; ++a) {
    TATransition::Resets r; std::vector<double> y(k); u64 q = a; bool bad = false, onlyConst = k == n; std::string nm;
    for (int j = 0; j < k && !bad; ++j) { int o = q % opt; q /= opt; if (o < 3) { y[j] = cs[o]; r.emplace_back(ClockVariables(j), cs[o]); } else if (o < 3 + n) { y[j] = x[o - 3]; r.emplace_back(ClockVariables(j), ClockVariables(o - 3)); onlyConst = false; } else if (j < n) y[j] = x[j]; else bad = true; }
    if (bad) continue; for (int j = 0; j + 1 < k; ++j) bad |= y[j] < y[j + 1]; if (bad) continue;   // the result must be a timed word
    std::string v = letters(k, 1); FRL want = FRL::fromTimedWord(word(v, y)); c.transitions(); c.traces(); c.nontrivial();
    for (auto &[z, val] : r) nm += " x" + std::to_string(z) + ":=" + (val.index() ? "x" + std::to_string(std::get<ClockVariables>(val)) : std::to_string((int) std::get<double>(val)));
    FRL g = f.applyResets(v, r, k); if (!(g == want)) return c.fail("assigning" + nm + " gives " + str(g) + ", expected " + str(want));
    if (onlyConst) { FRL h = f.applyResets(r); FRL w2 = FRL::fromTimedWord(word(letters(n), y)); if (!(h == w2)) return c.fail("assigning" + nm + " gives " + str(h) + ", expected " + str(w2)); }
  }
}
// ----- C23: regions of y_i = T_{0,i}; prepending time t adds t to every y_i
static void backward(int n, int M, u64 i, Case &c) {
  const Reg &R = reg(n, M, true); const Space &sp = R.sp; int k = R.at[i]; const auto &p = sp.pts[k]; const BRL &f = R.b[i]; std::string w = letters(n); c.key("region " + sp.show(k) + " of (T_{i,N})"); c.states(); c.nontrivial();
  if (f.getWord() != w || !single(f.getTimedCondition(), sp, k) || f.wordSize() != w.size() || f.getFractionalOrder().getSize() != (size_t) n) return c.fail("the region of a word is " + str(f));
  for (int v = 0; v < 3; ++v) { BRL g = BRL::fromTimedWord(word(w, rep(p, sp.Q, v))); c.transitions(); if (!(g == f) || hash_value(g) != hash_value(f)) return c.fail("two words of the same region give different languages: " + str(g)); }
  for (size_t j = 0; j < R.at.size(); ++j) { c.traces(); if ((R.b[j] == f) != (i == j)) return c.fail("equality with region " + sp.show(R.at[j])); if (f.contains(R.w[j]) != (i == j)) return c.fail("contains a word of region " + sp.show(R.at[j])); }
  // prepend a little time: until the next integer value of some T_{0,i}, or just after an integer value
  auto x = rep(p, sp.Q, 0); BRL cur = f; auto d = tc::durations(x);
  for (int step = 0; step < 8; ++step) {
    double y = 0, mx = 0; bool any = false; for (size_t j = 0; j < d.size(); ++j) { y += d[j]; double fr = y - std::floor(y); any |= fr == 0; mx = std::max(mx, fr); }
    d[0] += any ? (1 - mx) / 2 : 1 - mx; BRL want = BRL::fromTimedWord(TimedWord{w, d}); cur = cur.predecessor(); c.transitions(); c.traces();
    if (cur.getWord() != w || !(cur.getTimedCondition() == want.getTimedCondition())) return c.fail("continuous predecessor number " + std::to_string(step + 1) + " is " + str(cur) + ", expected " + str(want));
    if (!(cur == want) || hash_value(cur) != hash_value(want)) return c.fail("continuous predecessor number " + std::to_string(step + 1) + " is " + str(cur) + ", which differs from the language of its word " + str(want));
    auto is = cur.immediateSuffix(); if (step == 0 && (!is || !(*is == f))) return c.fail("the immediate suffix of the continuous predecessor is not the region");
  }
  for (char a : {'a', 'b'}) if (n < 4) { auto e = tc::durations(x); e.insert(e.begin(), 0); BRL want = BRL::fromTimedWord(TimedWord{a + w, e}); BRL g = f.predecessor(a); c.transitions(); if (!(g == want) || hash_value(g) != hash_value(want)) return c.fail("discrete predecessor is " + str(g) + ", expected " + str(want)); }
}
// every language built by predecessors from the empty one is the language of its words
static void chain(int len, u64 i, Case &c) {
  BRL b; std::string nm, w; std::vector<double> d{0}; std::vector<int> st; for (int k = 0; k < len; ++k) { st.push_back(i % 3); i /= 3; }
  for (int o : st) {
    nm += o == 0 ? '+' : o == 1 ? 'a' : 'b'; c.key("predecessors " + nm); c.transitions(); c.traces();
    if (o) { b = b.predecessor(o == 1 ? 'a' : 'b'); d.insert(d.begin(), 0); w = (o == 1 ? 'a' : 'b') + w; }
    else { b = b.predecessor(); double y = 0, mx = 0; bool any = false; for (double v : d) { y += v; double fr = y - std::floor(y); any |= fr == 0; mx = std::max(mx, fr); } d[0] += any ? (1 - mx) / 2 : 1 - mx; c.nontrivial(); }
    BRL want = BRL::fromTimedWord(TimedWord{w, d}); if (!b.contains(TimedWord{w, d})) return c.fail("does not contain the word built in the same way"); if (!(b == want)) return c.fail("is " + str(b) + ", expected " + str(want));
  } c.states();
}
// the same for forward languages
static void fchain(int len, u64 i, Case &c) {
  FRL b; std::string nm, w; std::vector<double> d{0}; std::vector<int> st; for (int k = 0; k < len; ++k) { st.push_back(i % 3); i /= 3; }
  for (int o : st) {
    nm += o == 0 ? '+' : o == 1 ? 'a' : 'b'; c.key("successors " + nm); c.transitions(); c.traces(); FRL before = b;
    if (o) { b = b.successor(o == 1 ? 'a' : 'b'); d.push_back(0); w += o == 1 ? 'a' : 'b'; }
    else { b = b.successor(); double y = 0, mx = 0; bool any = false; for (int j = (int) d.size() - 1; j >= 0; --j) { y += d[j]; double fr = y - std::floor(y); any |= fr == 0; mx = std::max(mx, fr); } d.back() += any ? (1 - mx) / 2 : 1 - mx; c.nontrivial(); }
    FRL want = FRL::fromTimedWord(TimedWord{w, d}); if (!b.contains(TimedWord{w, d})) return c.fail("does not contain the word built in the same way"); if (!(b == want)) return c.fail("is " + str(b) + ", expected " + str(want));
    auto ip = b.immediatePrefix(); if (!ip || !(*ip == before)) return c.fail("the immediate prefix is not the language before the last step");
  } c.states();
}
// ----- C24
static void order(int n, int den, u64 i, Case &c) {
  std::vector<double> fr; std::vector<int> v; u64 q = i; for (int j = 0; j < n; ++j) { v.push_back(q % den); q /= den; } for (int x : v) fr.push_back(x / double(den)); std::string nm; for (int x : v) nm += " " + std::to_string(x); c.key("fractional parts" + nm + " / " + std::to_string(den)); c.states();
  FractionalOrder o(fr); if (o.getSize() != (size_t) n) return c.fail("size is wrong");
  auto cls = [&](auto pred) { std::vector<int> r; for (int j = 0; j < n; ++j) if (pred(v[j])) r.push_back(j); return r; };
  auto eq = [](const std::deque<ClockVariables> &a, const std::vector<int> &b) { if (a.size() != b.size()) return false; std::vector<int> s(a.begin(), a.end()); std::sort(s.begin(), s.end()); return s == b; };
  int mx = *std::max_element(v.begin(), v.end()), mnNZ = den; for (int x : v) if (x) mnNZ = std::min(mnNZ, x); bool zero = *std::min_element(v.begin(), v.end()) == 0;
  c.transitions(8); c.traces(); if (mx != 0) c.nontrivial();
  if (!eq(o.successorVariables(), cls([&](int x) { return zero ? x == 0 : x == mx; }))) return c.fail("the variables to elapse are wrong");
  if (!eq(o.predecessorVariables(), cls([&](int x) { return zero ? x == 0 : x == mnNZ; }))) return c.fail("the variables to elapse backward are wrong");
  // time successor / predecessor in doubled units
  auto shift = [&](int t) { std::vector<double> r; for (int x : v) r.push_back(((2 * x + t) % (2 * den) + 2 * den) % (2 * den) / double(2 * den)); return FractionalOrder(r); };
  FractionalOrder s = shift(zero ? 1 : 2 * (den - mx)), p = shift(zero ? -1 : -2 * mnNZ); FractionalOrder g = o; g.successorAssign();
  if (!(o.successor() == s) || !(g == s)) return c.fail("the successor is " + str(o.successor()) + ", expected " + str(s)); if (!(o.predecessor() == p)) return c.fail("the predecessor is " + str(o.predecessor()) + ", expected " + str(p));
  if (!(o.successor().predecessor() == o) || !(o.predecessor().successor() == o)) return c.fail("successor and predecessor are not inverse");
  auto e = fr; e.push_back(0); FractionalOrder en(e); if (!(o.extendN() == en) || o.extendN().getSize() != (size_t) n + 1) return c.fail("extendN is wrong"); if (!(o.extendN().removeN() == o)) return c.fail("removeN does not undo extendN");
  auto z = fr; z.insert(z.begin(), 0); FractionalOrder ez(z); if (!(o.extendZero() == ez) || o.extendZero().getSize() != (size_t) n + 1) return c.fail("extendZero is wrong");
  if (hash_value(o.successor()) != hash_value(s) || hash_value(o.extendN()) != hash_value(en)) return c.fail("equal orders hash differently");
  // equality exactly for the same order of fractional parts
  u64 tot = gen::ipow(den, n); for (u64 j = 0; j < tot; j += tot > 700 ? 7 : 1) { std::vector<double> h; std::vector<int> u; u64 y = j; for (int a = 0; a < n; ++a) { u.push_back(y % den); h.push_back((y % den) / double(den)); y /= den; } bool same = true; for (int a = 0; a < n; ++a) { same &= (v[a] == 0) == (u[a] == 0); for (int b = 0; b < n; ++b) same &= (v[a] < v[b]) == (u[a] < u[b]); } FractionalOrder O(h); c.traces(); if ((O == o) != same) return c.fail("equality with another order is wrong"); if (same && hash_value(O) != hash_value(o)) return c.fail("equal orders hash differently"); }
}
void mc::Driver::setup(mc::Driver &d) {
  bool th = d.thorough();
  if (d.prop == "C22") {
    d.statesMean = "regions / construction sequences"; d.transMean = "successor, prefix, suffix and assignment steps"; d.tracesMean = "results compared with the reference";
    struct F { int n, M; }; for (auto f : {F{1, 6}, F{2, 3}, F{3, th ? 3 : 2}, F{4, th ? 2 : 1}}) { int n = f.n, M = f.M; d.add("forward-" + std::to_string(n), reg(n, M).at.size(), "all regions of words with " + std::to_string(n) + " durations, total <= " + std::to_string(M) + ": equality with all other regions, successors, all prefixes, all suffixes", [n, M](u64 i, Case &c) { forward(n, M, i, c); }, 120, n > 3 ? 4 : 0); }
    for (int k = 1; k <= 3; ++k) { d.add("assign-1-" + std::to_string(k), reg(1, 3).at.size(), "all assignments from 1 to " + std::to_string(k) + " clocks", [k](u64 i, Case &c) { assign(1, 3, k, i, c); }); d.add("assign-2-" + std::to_string(k), reg(2, 2).at.size(), "all assignments from 2 to " + std::to_string(k) + " clocks", [k](u64 i, Case &c) { assign(2, 2, k, i, c); }); d.add("assign-3-" + std::to_string(k), reg(3, 2).at.size(), "all assignments from 3 to " + std::to_string(k) + " clocks", [k](u64 i, Case &c) { assign(3, 2, k, i, c); }, 120, 4); }
    int L = th ? 11 : 9; d.add("chains", gen::ipow(3, L), "all sequences of " + std::to_string(L) + " successors (time, a, b) of the empty word", [L](u64 i, Case &c) { fchain(L, i, c); });
  } else if (d.prop == "C23") {
    d.statesMean = "regions / construction sequences"; d.transMean = "predecessor steps"; d.tracesMean = "results compared with the reference";
    struct F { int n, M; }; for (auto f : {F{1, 6}, F{2, 3}, F{3, th ? 3 : 2}, F{4, th ? 2 : 1}}) { int n = f.n, M = f.M; d.add("backward-" + std::to_string(n), reg(n, M, true).at.size(), "all regions of words with " + std::to_string(n) + " durations, total <= " + std::to_string(M) + ": equality with all other regions, eight continuous predecessors, discrete predecessors", [n, M](u64 i, Case &c) { backward(n, M, i, c); }); }
    int L = th ? 11 : 9; d.add("chains", gen::ipow(3, L), "all sequences of " + std::to_string(L) + " predecessors (time, a, b) of the empty word", [L](u64 i, Case &c) { chain(L, i, c); });
  } else {
    d.statesMean = "fractional orders"; d.transMean = "operations"; d.tracesMean = "results and comparisons checked";
    for (int n = 1; n <= (th ? 5 : 4); ++n) { int den = n <= 3 ? 4 : 8; d.add("orders-" + std::to_string(n), gen::ipow(den, n), "all vectors of " + std::to_string(n) + " fractional parts in multiples of 1/" + std::to_string(den), [n, den](u64 i, Case &c) { order(n, den, i, c); }); }
  }
}
MC_MAIN("C22")
