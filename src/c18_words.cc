// C18 timed words
#include "mc.hh"
#include "timed_word.hh"
#include "gen.hh"
using namespace learnta; using mc::Case; using mc::u64;
struct W { std::string w; std::vector<int> d; };   // durations in quarters
static const std::vector<int> DUR{0, 1, 2, 4, 7};
static std::vector<double> ds(const W &w) { std::vector<double> r; for (int x : w.d) r.push_back(x / 4.0); return r; }
static TimedWord lib(const W &w) { return TimedWord{w.w, ds(w)}; }
static W absorb(const W &w) { W r; r.d = {w.d[0]}; for (size_t i = 0; i < w.w.size(); ++i) if (w.w[i] == UNOBSERVABLE) r.d.back() += w.d[i + 1]; else { r.w += w.w[i]; r.d.push_back(w.d[i + 1]); } return r; }
static std::string nm(const W &w) { std::string s = std::to_string(w.d[0]); for (size_t i = 0; i < w.w.size(); ++i) s += std::string(" ") + (w.w[i] ? w.w[i] : '.') + " " + std::to_string(w.d[i + 1]); return s + " (quarters)"; }
static bool is(const TimedWord &t, const W &w) { if (t.getWord() != w.w || t.wordSize() != w.w.size() || t.getDurations().size() != w.d.size()) return false; for (size_t i = 0; i < w.d.size(); ++i) if (t.getDurations()[i] != w.d[i] / 4.0) return false; return true; }
struct Words {
  int maxLen, A, nd;
  u64 total() const { u64 t = 0; for (int l = 0; l <= maxLen; ++l) t += gen::ipow(A, l) * gen::ipow(nd, l + 1); return t; }
  W make(u64 i) const {
    static const char L[] = {'a', 'b', UNOBSERVABLE};
    for (int l = 0;; ++l) {
      u64 n = gen::ipow(A, l) * gen::ipow(nd, l + 1); if (i >= n) { i -= n; continue; }
      W w; gen::Digits d(i); for (int k = 0; k < l; ++k) w.w += L[d.take(A)]; for (int k = 0; k <= l; ++k) w.d.push_back(DUR[d.take(nd)]); return w;
    }
  }
};
static void one(const W &raw, Case &c) {
  c.key("word " + nm(raw)); W w = absorb(raw); TimedWord t = lib(raw); c.states();
  if (!is(t, w)) return c.fail("the word built differs: " + [&] { std::ostringstream s; s << t; return s.str(); }());
  if (raw.w.size() != w.w.size()) c.nontrivial();
  // accumulated durations
  auto acc = t.getAccumulatedDurations(); int sum = 0; if (acc.size() != w.d.size()) return c.fail("accumulated durations have the wrong length");
  for (int i = (int) w.d.size() - 1; i >= 0; --i) { sum += w.d[i]; if (acc[i] != sum / 4.0) return c.fail("accumulated duration " + std::to_string(i) + " is " + std::to_string(acc[i]) + ", expected " + std::to_string(sum / 4.0)); }
  // letters and delays appended
  for (char a : {'a', 'b'}) { W e = w; e.w += a; e.d.push_back(0); c.transitions(); if (!is(t + a, e)) return c.fail("appending a letter is wrong"); }
  for (int q : {0, 1, 6}) { W e = w; e.d.back() += q; c.transitions(); if (!is(t + q / 4.0, e)) return c.fail("appending a delay is wrong"); }
  // every prefix (at quarter granularity): prefix + suffix == word
  for (size_t k = 0; k <= w.w.size(); ++k) for (int q = 0; q <= w.d[k]; ++q) {
    W p{w.w.substr(0, k), std::vector<int>(w.d.begin(), w.d.begin() + k)}; p.d.push_back(q);
    W s{w.w.substr(k), std::vector<int>(w.d.begin() + k, w.d.end())}; s.d[0] -= q; c.transitions();
    TimedWord sx = t.getSuffix(lib(p)); if (!is(sx, s)) return c.fail("suffix after prefix " + nm(p) + " is wrong");
    if (!(lib(p) + sx == t)) return c.fail("prefix + suffix differs from the word for prefix " + nm(p));
    if (hash_value(lib(p) + sx) != hash_value(t)) return c.fail("equal words hash differently");
  }
  // printing: durations and letters alternate
  for (int v = 0; v < 2; ++v) {
    std::ostringstream o; if (v) t.print(o); else o << t; std::istringstream in(o.str()); W r; double x; char a; bool ok = bool(in >> x); r.d.push_back(int(x * 4)); ok = ok && r.d[0] == x * 4;
    while (ok && in >> a) { ok = bool(in >> x); r.w += a; r.d.push_back(int(x * 4)); ok = ok && r.d.back() == x * 4; }
    if (!ok || r.w != w.w || r.d != w.d) return c.fail("printed as '" + o.str() + "'");
  }
  c.traces();
}
static void two(const W &ra, const W &rb, Case &c) {
  c.key("pair " + nm(ra) + " | " + nm(rb)); W a = absorb(ra), b = absorb(rb); TimedWord x = lib(ra), y = lib(rb); c.states(); c.transitions();
  W e = a; e.w += b.w; e.d.back() += b.d[0]; e.d.insert(e.d.end(), b.d.begin() + 1, b.d.end());
  if (!is(x + y, e)) return c.fail("concatenation is wrong"); if (!is(x, a) || !is(y, b)) return c.fail("concatenation changed an operand");
  bool same = a.w == b.w && a.d == b.d; if ((x == y) != same) return c.fail(same ? "equal words compare different" : "different words compare equal");
  if (same && hash_value(x) != hash_value(y)) c.fail("equal words hash differently");
  if (same) c.nontrivial(); c.traces();
}
void mc::Driver::setup(mc::Driver &d) {
  d.statesMean = "words (or pairs of words)"; d.transMean = "operations applied"; d.tracesMean = "words compared with the reference";
  bool th = d.thorough();
  { static Words w{th ? 4 : 3, 3, 5}; d.add("words", w.total(), "all words of length <= " + std::to_string(w.maxLen) + " over {a, b, unobservable} with 5 delays (quarters)", [](u64 i, Case &c) { one(w.make(i), c); }); }
  { static Words w{2, 3, th ? 4 : 3}; static u64 n = w.total(); d.add("pairs", n * n, "all pairs of words of length <= 2 over {a, b, unobservable}", [](u64 i, Case &c) { two(w.make(i % n), w.make(i / n), c); }); }
}
MC_MAIN("C18")
