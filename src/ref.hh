// Reference semantics, written independently of /repo: timed automata with integer constants,
// exact (integer) clock values, and an explicit-state region-graph model checker for language
// equivalence / inclusion / emptiness.  Nothing in this file includes a header of /repo.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace ref {
  enum Op { LT = 0, LE = 1, GE = 2, GT = 3 };
  struct Guard { int x; int op; int c; };
  struct Reset { int x; bool isClock; int v; };            // x := clock v | constant v
  struct Edge { int target; std::vector<Guard> guard; std::vector<Reset> resets; };
  struct Loc { bool acc = false; std::map<char, std::vector<Edge>> out; };
  struct TA { int nclk = 0; int init = 0; std::vector<Loc> locs; };   // init < 0: no initial state

  inline bool holds(int op, long long v, long long c) {
    switch (op) { case LT: return v < c; case LE: return v <= c; case GE: return v >= c; default: return v > c; }
  }

  // A timed word: dur[0] w[0] dur[1] ... w[n-1] dur[n], durations in units of 1/Q
  struct Word { std::string w; std::vector<long long> dur; };
  inline std::string show(const Word &w, int Q) {
    std::ostringstream s;
    for (size_t i = 0; i < w.dur.size(); ++i) { s << double(w.dur[i]) / Q; if (i < w.w.size()) s << " " << w.w[i] << " "; }
    return s.str();
  }

  // Concrete run with exact integers (unit 1/Q; automaton constants are integers). -1 = stuck.
  struct Config { int loc; std::vector<long long> v; };
  inline Config start(const TA &a) { return {a.init, std::vector<long long>(a.nclk, 0)}; }
  inline void elapse(Config &c, long long d) { if (c.loc >= 0) for (auto &x : c.v) x += d; }
  inline bool enabled(const Edge &e, const std::vector<long long> &v, int Q) {
    for (auto &g : e.guard) if (!holds(g.op, v[g.x], (long long) g.c * Q)) return false;
    return true;
  }
  inline std::vector<long long> fire(const Edge &e, const std::vector<long long> &v, int Q) {
    auto r = v;
    for (auto &s : e.resets) r[s.x] = s.isClock ? v[s.v] : (long long) s.v * Q;
    return r;
  }
  // returns number of enabled edges (determinism: must be <=1)
  inline int act(const TA &a, Config &c, char l, int Q) {
    if (c.loc < 0) return 0;
    auto it = a.locs[c.loc].out.find(l);
    const Edge *hit = nullptr; int n = 0;
    if (it != a.locs[c.loc].out.end()) for (auto &e : it->second) if (enabled(e, c.v, Q)) { if (!hit) hit = &e; ++n; }
    if (!hit) { c.loc = -1; return 0; }
    auto v = fire(*hit, c.v, Q); c.loc = hit->target; c.v = v;
    return n;
  }
  inline bool acc(const TA &a, const Config &c) { return c.loc >= 0 && a.locs[c.loc].acc; }
  inline bool accepts(const TA &a, const Word &w, int Q) {
    Config c = start(a);
    elapse(c, w.dur[0]);
    for (size_t i = 0; i < w.w.size(); ++i) { act(a, c, w.w[i], Q); elapse(c, w.dur[i + 1]); }
    return acc(a, c);
  }
  // nondeterministic acceptance
  inline bool acceptsNd(const TA &a, const Word &w, int Q, const std::vector<int> &inits) {
    std::vector<Config> cs;
    for (int i : inits) cs.push_back({i, std::vector<long long>(a.nclk, 0)});
    for (auto &c : cs) elapse(c, w.dur[0]);
    for (size_t i = 0; i < w.w.size(); ++i) {
      std::vector<Config> n;
      for (auto &c : cs) {
        auto it = a.locs[c.loc].out.find(w.w[i]);
        if (it == a.locs[c.loc].out.end()) continue;
        for (auto &e : it->second) if (enabled(e, c.v, Q)) n.push_back({e.target, fire(e, c.v, Q)});
      }
      for (auto &c : n) elapse(c, w.dur[i + 1]);
      cs = n;
    }
    for (auto &c : cs) if (a.locs[c.loc].acc) return true;
    return false;
  }

  inline std::string show(const TA &a) {
    static const char *ops[] = {"<", "<=", ">=", ">"};
    std::ostringstream s;
    s << "clocks=" << a.nclk << " init=" << a.init << ";";
    for (size_t i = 0; i < a.locs.size(); ++i) {
      s << " loc" << i << (a.locs[i].acc ? "(acc)" : "");
      for (auto &[l, es] : a.locs[i].out) for (auto &e : es) {
        s << " [" << (l ? std::string(1, l) : std::string("eps")) << " {";
        for (size_t k = 0; k < e.guard.size(); ++k) s << (k ? "," : "") << "x" << e.guard[k].x << ops[e.guard[k].op] << e.guard[k].c;
        s << "} {";
        for (size_t k = 0; k < e.resets.size(); ++k) s << (k ? "," : "") << "x" << e.resets[k].x << ":=" << (e.resets[k].isClock ? "x" : "") << e.resets[k].v;
        s << "} ->" << e.target << "]";
      }
      s << ";";
    }
    return s.str();
  }

  inline int maxConst(const TA &a) {
    int m = 0;
    for (auto &l : a.locs) for (auto &[c, es] : l.out) for (auto &e : es) {
      for (auto &g : e.guard) m = std::max(m, g.c);
      for (auto &r : e.resets) if (!r.isClock) m = std::max(m, r.v);
    }
    return m;
  }
  inline void scaleBy(TA &a, int k) {
    for (auto &l : a.locs) for (auto &[c, es] : l.out) for (auto &e : es) {
      for (auto &g : e.guard) g.c *= k;
      for (auto &r : e.resets) if (!r.isClock) r.v *= k;
    }
  }

  // ---- regions over n clocks, uniform ceiling M -------------------------------------------------
  // ip[i] in 0..M, or M+1 meaning "> M" ; fr[i] = rank of the fractional part (0 = integral), -1 if > M
  struct Region {
    std::vector<int8_t> ip, fr;
    bool operator==(const Region &o) const { return ip == o.ip && fr == o.fr; }
  };
  inline Region zeroRegion(int n) { return {std::vector<int8_t>(n, 0), std::vector<int8_t>(n, 0)}; }
  inline void normRegion(Region &r) {   // make ranks contiguous, keeping order
    bool used[64] = {false};
    for (auto f : r.fr) if (f > 0) used[f] = true;
    int8_t map[64]; int8_t k = 0;
    for (int i = 1; i < 64; ++i) map[i] = used[i] ? ++k : 0;
    for (auto &f : r.fr) if (f > 0) f = map[f];
  }
  inline bool elapseRegion(Region &r, int M) {   // immediate time successor; false if none (all > M)
    bool zero = false; int8_t mx = 0;
    for (auto f : r.fr) { if (f == 0) zero = true; mx = std::max(mx, f); }
    if (zero) {
      for (size_t i = 0; i < r.ip.size(); ++i) {
        if (r.fr[i] < 0) continue;
        if (r.fr[i] == 0) { if (r.ip[i] == M) { r.ip[i] = M + 1; r.fr[i] = -1; } else r.fr[i] = 1; }
        else r.fr[i]++;
      }
    } else {
      if (mx == 0) return false;
      for (size_t i = 0; i < r.ip.size(); ++i) if (r.fr[i] == mx) { r.ip[i]++; r.fr[i] = 0; }
    }
    normRegion(r);
    return true;
  }
  inline bool holdsRegion(const Region &r, const Guard &g, int M) {
    int i = r.ip[g.x];
    if (i > M) return g.op == GE || g.op == GT;
    bool zero = r.fr[g.x] == 0;
    switch (g.op) {
      case LT: return i < g.c;                       // i + f < c  <=> i < c (f<1)
      case LE: return i < g.c || (i == g.c && zero);
      case GE: return i >= g.c;
      default: return i > g.c || (i == g.c && !zero);
    }
  }
  inline Region fireRegion(const Region &r, const std::vector<Reset> &rs, int off) {
    Region n = r;
    for (auto &s : rs) {
      if (s.isClock) { n.ip[s.x + off] = r.ip[s.v + off]; n.fr[s.x + off] = r.fr[s.v + off]; }
      else { n.ip[s.x + off] = s.v; n.fr[s.x + off] = 0; }
    }
    normRegion(n);
    return n;
  }
  inline std::string key(const std::vector<int> &locs, const Region &r) {
    std::string s;
    for (int l : locs) { s.push_back(char(l + 1)); s.push_back(char((l + 1) >> 8)); }
    s.append((const char *) r.ip.data(), r.ip.size());
    s.append((const char *) r.fr.data(), r.fr.size());
    return s;
  }

  inline bool sameEffect(const Edge &a, const Edge &b) {
    if (a.target != b.target || a.resets.size() != b.resets.size()) return false;
    for (size_t i = 0; i < a.resets.size(); ++i)
      if (a.resets[i].x != b.resets[i].x || a.resets[i].isClock != b.resets[i].isClock || a.resets[i].v != b.resets[i].v) return false;
    return true;
  }
  template<class F> inline const Edge *urgentEdge(const TA &a, int loc, F holds_) {
    auto it = a.locs[loc].out.find(0);
    if (it != a.locs[loc].out.end()) for (auto &e : it->second) { bool ok = true; for (auto &g : e.guard) ok = ok && holds_(g); if (ok) return &e; }
    return nullptr;
  }
  inline void settle(const TA &a, Config &c, int Q) {
    for (int k = 0; k < 8 && c.loc >= 0; ++k) {
      auto e = urgentEdge(a, c.loc, [&](const Guard &g) { return holds(g.op, c.v[g.x], (long long) g.c * Q); });
      if (!e) return;
      c.v = fire(*e, c.v, Q); c.loc = e->target;
    }
  }
  // acceptance with urgent epsilon edges with one bound x >= c: time stops at every instant at which one of them becomes enabled
  inline bool acceptsUrgent(const TA &a, const Word &w, int Q) {
    Config c = start(a);
    auto pass = [&](long long d) {
      for (int k = 0; d > 0 && c.loc >= 0 && k < 1000; ++k) {
        long long s = d; auto it = a.locs[c.loc].out.find(0);
        if (it != a.locs[c.loc].out.end()) for (auto &e : it->second) { long long need = 0; for (auto &g : e.guard) if (g.op == GE || g.op == GT) need = std::max(need, (long long) g.c * Q - c.v[g.x]); if (need > 0) s = std::min(s, need); }
        elapse(c, s); d -= s; settle(a, c, Q);
      }
    };
    pass(w.dur[0]);
    for (size_t i = 0; i < w.w.size(); ++i) { act(a, c, w.w[i], Q); pass(w.dur[i + 1]); }
    return acc(a, c);
  }
  struct Stats { unsigned long long states = 0, transitions = 0; };

  // Explicit-state exploration of the synchronous product of deterministic automata.  Epsilon edges are urgent:
  // they are taken as soon as letting time pass makes their guard hold.  `bad` is evaluated on the vector of acceptance bits.  A run that is stuck goes to sink (-1).
  // Returns a witness word (unit 1/Q) reaching a bad configuration, or nullopt.
  struct ProductResult { bool nondet = false; int nondetWhich = -1; bool found = false; Word witness; int Q = 1; };
  inline ProductResult product(const std::vector<const TA *> &as, const std::string &alphabet,
                               const std::function<bool(const std::vector<bool> &)> &bad, Stats &st,
                               size_t limit = 5000000) {
    ProductResult res;
    int n = 0, M = 0;
    std::vector<int> off;
    for (auto a : as) { off.push_back(n); n += a->nclk; M = std::max(M, maxConst(*a)); }
    struct Node { std::vector<int> locs; Region r; int parent; char act; };
    std::vector<Node> nodes;
    std::unordered_map<std::string, int> seen;
    std::vector<int> l0;
    for (auto a : as) l0.push_back(a->init);
    nodes.push_back({l0, zeroRegion(n), -1, 0});
    seen[key(l0, nodes[0].r)] = 0;
    int badNode = -1;
    for (size_t cur = 0; cur < nodes.size(); ++cur) {
      if (nodes.size() > limit) break;
      std::vector<bool> accs;
      for (size_t i = 0; i < as.size(); ++i) accs.push_back(nodes[cur].locs[i] >= 0 && as[i]->locs[nodes[cur].locs[i]].acc);
      if (bad(accs)) { badNode = cur; break; }
      bool allSink = true;
      for (int l : nodes[cur].locs) if (l >= 0) allSink = false;
      if (allSink) continue;
      auto add = [&](std::vector<int> locs, Region r, char act) {
        ++st.transitions;
        auto k = key(locs, r);
        if (seen.emplace(k, (int) nodes.size()).second) nodes.push_back({std::move(locs), std::move(r), (int) cur, act});
      };
      Region r = nodes[cur].r;
      if (elapseRegion(r, M)) {
        std::vector<int> locs = nodes[cur].locs;
        for (int k = 0; k < 8; ++k) {
          bool any = false;
          for (size_t i = 0; i < as.size(); ++i) if (locs[i] >= 0) if (auto e = urgentEdge(*as[i], locs[i], [&](Guard g) { g.x += off[i]; return holdsRegion(r, g, M); })) { r = fireRegion(r, e->resets, off[i]); locs[i] = e->target; any = true; }
          if (!any) break;
        }
        add(locs, r, 1);
      }
      for (char c : alphabet) {
        std::vector<int> locs = nodes[cur].locs;
        Region nr = nodes[cur].r;
        for (size_t i = 0; i < as.size(); ++i) {
          if (locs[i] < 0) continue;
          auto it = as[i]->locs[locs[i]].out.find(c);
          const Edge *hit = nullptr; int cnt = 0;
          if (it != as[i]->locs[locs[i]].out.end())
            for (auto &e : it->second) {
              bool ok = true;
              for (auto g : e.guard) { g.x += off[i]; if (!holdsRegion(nodes[cur].r, g, M)) { ok = false; break; } }
              if (ok) { if (!hit) { hit = &e; ++cnt; } else if (!sameEffect(*hit, e)) ++cnt; }
            }
          if (cnt > 1) { res.nondet = true; if (res.nondetWhich < 0) res.nondetWhich = (int) i; }
          if (!hit) locs[i] = -1;
          else { locs[i] = hit->target; nr = fireRegion(nr, hit->resets, off[i]); }
        }
        add(locs, nr, c);
      }
    }
    st.states += nodes.size();
    if (badNode >= 0) {
      res.found = true;
      std::vector<char> acts;
      for (int k = badNode; nodes[k].parent >= 0; k = nodes[k].parent) acts.push_back(nodes[k].act);
      std::reverse(acts.begin(), acts.end());
      // concretise with exact integers; each elapse moves to the next region
      const int Q = 1 << 20; res.Q = Q;
      std::vector<Config> cs;
      for (auto a : as) cs.push_back(start(*a));
      Word w; w.dur.push_back(0);
      for (char act_ : acts) {
        if (act_ == 1) {
          // delay to next region: if some clock integral (<=M): half of the min gap; else min gap to the next integer
          bool zero = false; long long gap = Q;
          for (auto &c : cs) for (auto v : c.v) { if (v > (long long) M * Q) continue; if (v % Q == 0) zero = true; gap = std::min(gap, Q - v % Q); }
          long long d = zero ? gap / 2 : gap;
          for (size_t i = 0; i < as.size(); ++i) { for (auto &v : cs[i].v) v += d; settle(*as[i], cs[i], Q); }
          w.dur.back() += d;
        } else {
          for (size_t i = 0; i < as.size(); ++i) act(*as[i], cs[i], act_, Q);
          w.w.push_back(act_); w.dur.push_back(0);
        }
      }
      res.witness = w;
    }
    return res;
  }
  // reachability in one (possibly nondeterministic) automaton: can an accepting location be reached?
  inline bool nonempty(const TA &a, const std::vector<int> &inits, Stats &st) {
    int M = maxConst(a);
    std::vector<std::pair<int, Region>> nodes; std::set<std::string> seen;
    auto add = [&](int l, const Region &r) { if (seen.insert(key({l}, r)).second) nodes.emplace_back(l, r); };
    for (int i : inits) add(i, zeroRegion(a.nclk));
    bool found = false;
    for (size_t cur = 0; cur < nodes.size() && !found; ++cur) {
      auto [l, r] = nodes[cur];
      if (a.locs[l].acc) { found = true; break; }
      Region n = r;
      if (elapseRegion(n, M)) { ++st.transitions; add(l, n); }
      for (auto &[c, es] : a.locs[l].out) for (auto &e : es) {
        bool ok = true;
        for (auto &g : e.guard) if (!holdsRegion(r, g, M)) { ok = false; break; }
        if (ok) { ++st.transitions; add(e.target, fireRegion(r, e.resets, 0)); }
      }
    }
    st.states += nodes.size();
    return found;
  }
  inline ProductResult equivalent(const TA &a, const TA &b, const std::string &alphabet, Stats &st) {
    return product({&a, &b}, alphabet, [](const std::vector<bool> &x) { return x[0] != x[1]; }, st);
  }
}
