// Enumerated families of timed automata (explicit indexing: index -> automaton).
#pragma once
#include "ref.hh"
namespace gen {
  using ref::TA; using ref::Edge; using ref::Guard;
  struct Digits {                       // mixed radix decoding of an index
    unsigned long long v;
    explicit Digits(unsigned long long x) : v(x) {}
    unsigned take(unsigned long long n) { unsigned r = v % n; v /= n; return r; }
  };
  inline unsigned long long ipow(unsigned long long b, int e) { unsigned long long r = 1; while (e--) r *= b; return r; }

  // "split" automata: every (location, letter) splits one clock at constant C (either <C/>=C or <=C/>C);
  // each half is: no edge, or an edge to any location resetting any subset of the clocks to 0.
  struct Split {
    int K, L, A, C;
    unsigned long long opt() const { return (unsigned long long) L * (1ull << K) + 1; }
    unsigned long long per() const { return K * 2ull * opt() * opt(); }
    unsigned long long total() const { return ipow(per(), L * A) << L; }
    TA make(unsigned long long idx) const {
      TA a; a.nclk = K; a.locs.resize(L);
      Digits d(idx);
      for (int i = 0; i < L; ++i) a.locs[i].acc = d.take(2);
      for (int i = 0; i < L; ++i) for (int l = 0; l < A; ++l) {
        int clk = d.take(K), st = d.take(2);
        for (int h = 0; h < 2; ++h) {
          unsigned o = d.take(opt()); if (!o) continue; --o;
          Edge e; e.target = o % L; o /= L;
          for (int x = 0; x < K; ++x) if (o >> x & 1) e.resets.push_back({x, false, 0});
          e.guard = {{clk, h == 0 ? (st ? ref::LE : ref::LT) : (st ? ref::GT : ref::GE), C}};
          a.locs[i].out[char('a' + l)].push_back(e);
        }
      }
      return a;
    }
  };
  // chain automata: loc0 -> loc1 -> ... -> locL (accepting set free), letter 'a', one edge per location with a
  // guard from `guards` and a reset set, optionally followed by a back edge / self loop on the last location
  inline std::vector<std::vector<Guard>> guards1(int clk, int maxC) {   // all intervals on one clock, consts <= maxC
    std::vector<std::vector<Guard>> r; r.push_back({});
    std::vector<std::vector<Guard>> lo{{}}, hi{{}};
    for (int c = 0; c <= maxC; ++c) { if (c) lo.push_back({{clk, ref::GE, c}}); lo.push_back({{clk, ref::GT, c}}); hi.push_back({{clk, ref::LE, c}}); if (c) hi.push_back({{clk, ref::LT, c}}); }
    for (auto &l : lo) for (auto &h : hi) {
      if (l.empty() && h.empty()) continue;
      if (!l.empty() && !h.empty()) {
        int a = l[0].c, b = h[0].c;
        if (a > b || (a == b && !(l[0].op == ref::GE && h[0].op == ref::LE))) continue;
      }
      auto g = l; g.insert(g.end(), h.begin(), h.end()); r.push_back(g);
    }
    return r;
  }
  // "partition" automata: every (location, letter) picks a partition of the clock space from `parts`
  // (pieces are pairwise disjoint guards), and every piece an outcome from `outs` (-1 target: no edge).
  struct Outcome { int target; std::vector<ref::Reset> resets; };
  struct Parts {
    int K, L, A; std::vector<std::vector<std::vector<Guard>>> parts; std::vector<Outcome> outs; bool freeAcc = true;
    unsigned long long per() const { unsigned long long s = 0; for (auto &p : parts) s += ipow(outs.size(), (int) p.size()); return s; }
    unsigned long long total() const { return ipow(per(), L * A) << (freeAcc ? L : 1); }
    TA make(unsigned long long idx) const {
      TA a; a.nclk = K; a.locs.resize(L);
      Digits d(idx);
      if (freeAcc) for (int i = 0; i < L; ++i) a.locs[i].acc = d.take(2);
      else { a.locs[L - 1].acc = true; if (L > 1) a.locs[0].acc = d.take(2); else d.take(2); }
      for (int i = 0; i < L; ++i) for (int l = 0; l < A; ++l) {
        unsigned long long q = d.take(per());
        for (auto &p : parts) {
          unsigned long long n = ipow(outs.size(), (int) p.size());
          if (q >= n) { q -= n; continue; }
          for (auto &g : p) {
            auto &o = outs[q % outs.size()]; q /= outs.size();
            if (o.target >= 0) a.locs[i].out[char('a' + l)].push_back({o.target, g, o.resets});
          }
          break;
        }
      }
      return a;
    }
  };
  inline ref::Reset zero(int x) { return {x, false, 0}; }
  inline ref::Reset cst(int x, int c) { return {x, false, c}; }
  inline ref::Reset cpy(int x, int y) { return {x, true, y}; }
  inline std::vector<Outcome> outcomes(int L, const std::vector<std::vector<ref::Reset>> &rs) {
    std::vector<Outcome> r{{-1, {}}};
    for (int t = 0; t < L; ++t) for (auto &x : rs) r.push_back({t, x});
    return r;
  }
  inline Guard lt(int x, int c) { return {x, ref::LT, c}; }
  inline Guard le(int x, int c) { return {x, ref::LE, c}; }
  inline Guard ge(int x, int c) { return {x, ref::GE, c}; }
  inline Guard gt(int x, int c) { return {x, ref::GT, c}; }
  inline std::string letters(int A) { std::string s; for (int i = 0; i < A; ++i) s.push_back(char('a' + i)); return s; }
}
