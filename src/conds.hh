// Timed conditions (constraints over T_{i,j} = x_i - x_{j+1}, x_i = T_{i,N-1}) against reference DBMs over the
// monotone points x_0 >= x_1 >= ... >= x_{N-1} >= 0.  Only the public interface of TimedCondition is used.
#pragma once
#include "dbm.hh"
#include "timed_condition.hh"
namespace tc {
  using dbm::D; using rs::Set; using rs::Space; using learnta::TimedCondition;
  inline const Space &space(int n, int M) { static std::map<std::pair<int, int>, Space *> m; auto &p = m[{n, M}]; if (!p) p = new Space(n, M); return *p; }
  inline bool mono(const rs::Pt &p) { for (size_t i = 0; i + 1 < p.size(); ++i) if (p[i] < p[i + 1]) return false; return true; }
  inline const Set &monotone(int n, int M) { static std::map<std::pair<int, int>, Set> m; auto it = m.find({n, M}); if (it == m.end()) it = m.emplace(std::make_pair(n, M), space(n, M).filter(mono)).first; return it->second; }
  inline TimedCondition top(int n) { TimedCondition t = TimedCondition::empty(); t.removeUpperBoundAssign(); for (int i = 1; i < n; ++i) { t = t.extendN(); t.removeUpperBoundAssign(); } return t; }
  inline D base(int n) { D d(n); for (int i = 1; i <= n; ++i) for (int j = i + 1; j <= n; ++j) d.at(j, i) = 1; for (int i = 1; i <= n; ++i) d.at(0, i) = 1; return d; }
  // entry of T_{i,j}: upper bound at (up, lo), lower bound (negated) at (lo, up)
  inline int lo(int n, int j) { return j == n - 1 ? 0 : j + 2; }
  inline TimedCondition make(const D &d) {
    TimedCondition t = top(d.n);
    for (int i = 0; i < d.n; ++i) for (int j = i; j < d.n; ++j) {
      int u = d.at(i + 1, lo(d.n, j)), l = d.at(lo(d.n, j), i + 1);
      if (u < dbm::INF) t.restrictUpperBound(i, j, dbm::bound(u));
      if (l < dbm::INF && l != 1) t.restrictLowerBound(i, j, dbm::bound(l));
    }
    return t;
  }
  inline int enc(const learnta::Bounds &b, double unit = 1) { double c = b.first / unit; if (c > 1e6) return dbm::INF; if (c < -1e6) return -dbm::INF; return 2 * (int) std::llround(c) + b.second; }
  inline D read(const TimedCondition &t, double unit = 1) {
    int n = (int) t.size(); D d(n);
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { d.at(i + 1, lo(n, j)) = enc(t.getUpperBound(i, j), unit); d.at(lo(n, j), i + 1) = enc(t.getLowerBound(i, j), unit); }
    return d;
  }
  inline std::string show(const D &d) {
    std::string r;
    for (int i = 0; i < d.n; ++i) for (int j = i; j < d.n; ++j) {
      int u = d.at(i + 1, lo(d.n, j)), l = d.at(lo(d.n, j), i + 1); std::string nm = "T" + std::to_string(i) + std::to_string(j), s;
      if (l < dbm::INF && l != 1) s += std::to_string(-(l >> 1)) + (l & 1 ? "<=" : "<");
      s += nm; if (u < dbm::INF) s += std::string(u & 1 ? "<=" : "<") + std::to_string(u >> 1);
      if (s != nm) r += (r.empty() ? "" : " ") + s;
    }
    return r.empty() ? "top" + std::to_string(d.n) : r;
  }
  // exact doubles for a region representative (rank r of n fractional parts becomes r/8, so sums stay exact)
  inline std::vector<double> real(const rs::Pt &p, int Q) { std::vector<double> r; for (int v : p) r.push_back(v / Q + (v % Q) / 8.0); return r; }
  inline std::vector<double> durations(const std::vector<double> &x) { std::vector<double> d; for (size_t i = 0; i < x.size(); ++i) d.push_back(x[i] - (i + 1 < x.size() ? x[i + 1] : 0)); return d; }
  // all non-empty canonical conditions over n variables given by at most k bounds (constants <= C) besides monotonicity,
  // every one of them for n <= 2 when k is large enough
  inline std::vector<D> all(int n, int C, int k, bool bounded = false, int cap = 0) {
    std::vector<std::array<int, 3>> menu; std::map<std::vector<int>, int> seen; std::vector<D> r;
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) {
      int a = i + 1, b = lo(n, j);
      for (int u = 1; u <= 2 * C + 1; ++u) menu.push_back({a, b, u});
      for (int l = 0; l >= -2 * C; --l) menu.push_back({b, a, l % 2 == 0 ? l : l + 1 - 1});
    }
    D d0 = base(n); d0.close(); std::vector<D> layer{d0};
    if (bounded) { for (int i = 1; i <= n; ++i) layer[0].at(i, 0) = 2 * (cap ? cap : C) + 1; layer[0].close(); }
    r = layer; seen[layer[0].m] = 1;
    for (int q = 0; q < k; ++q) {
      std::vector<D> nx;
      for (auto &d : layer) for (auto &m : menu) { if (d.at(m[0], m[1]) <= m[2]) continue; D e = d; e.at(m[0], m[1]) = m[2]; if (!e.close()) continue; if (seen.emplace(e.m, 1).second) { nx.push_back(e); r.push_back(e); } }
      layer = nx; if (layer.empty()) break;
    }
    return r;
  }
}
