// Reference view of difference bound matrices: an integer DBM with its own closure, and the set of regions
// described by a library zone (read entry by entry, whatever form it is in).
#pragma once
#include "regions.hh"
#include "zone.hh"
namespace dbm {
  using rs::Set; using rs::Space;
  static const int INF = 1 << 28;
  // encoded bound: 2c+1 for <= c, 2c for < c, INF for none
  inline int add(int a, int b) { if (a >= INF || b >= INF) return INF; return ((a >> 1) + (b >> 1)) * 2 + ((a & 1) & (b & 1)); }
  struct D {
    int n; std::vector<int> m;
    explicit D(int n_) : n(n_), m((n_ + 1) * (n_ + 1), INF) { for (int i = 0; i <= n; ++i) at(i, i) = 1; }
    int &at(int i, int j) { return m[i * (n + 1) + j]; }
    int at(int i, int j) const { return m[i * (n + 1) + j]; }
    bool close() {                      // Floyd-Warshall; false if empty
      for (int k = 0; k <= n; ++k) for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) at(i, j) = std::min(at(i, j), add(at(i, k), at(k, j)));
      for (int i = 0; i <= n; ++i) if (at(i, i) < 1) return false;
      return true;
    }
    bool canonical() const { D c = *this; return c.close() && c.m == m; }
    bool has(const rs::Pt &p, int Q) const {
      for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) { int b = at(i, j); if (b >= INF) continue; int v = (i ? p[i - 1] : 0) - (j ? p[j - 1] : 0); int c = (b >> 1) * Q; if (b & 1 ? v > c : v >= c) return false; }
      return true;
    }
    Set set(const Space &s) const { return s.filter([&](const rs::Pt &p) { return has(p, s.Q); }); }
    std::string show() const {
      std::string r;
      for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) if (i != j && at(i, j) < INF) {
        auto nm = [](int k) { return k ? std::string(1, char('w' + k)) : std::string("0"); };
        r += (r.empty() ? "" : " ") + nm(i) + "-" + nm(j) + (at(i, j) & 1 ? "<=" : "<") + std::to_string(at(i, j) >> 1);
      }
      return r.empty() ? "top" : r;
    }
  };
  inline learnta::Bounds bound(int b, double unit = 1) { return b >= INF ? learnta::Bounds{std::numeric_limits<double>::max(), false} : learnta::Bounds{(b >> 1) * unit, bool(b & 1)}; }
  inline learnta::Zone toLib(const D &d, double unit = 1, double M = 10) {
    Eigen::Matrix<learnta::Bounds, Eigen::Dynamic, Eigen::Dynamic> v; v.resize(d.n + 1, d.n + 1);
    for (int i = 0; i <= d.n; ++i) for (int j = 0; j <= d.n; ++j) v(i, j) = bound(d.at(i, j), unit);
    return learnta::Zone(v, learnta::Bounds{M, true});
  }
  // the constraints written in a library zone, exactly (units: 1/unit must be integral)
  inline D fromLib(const learnta::Zone &z, double unit = 1) {
    D d((int) z.value.cols() - 1);
    for (int i = 0; i <= d.n; ++i) for (int j = 0; j <= d.n; ++j) {
      auto b = z.value(i, j); double c = b.first / unit;
      if (c > 1e6) d.at(i, j) = INF; else if (c < -1e6) d.at(i, j) = -INF; else d.at(i, j) = 2 * (int) std::llround(c) + b.second;
    }
    return d;
  }
  inline std::string show(const learnta::Zone &z, double unit = 1) { return fromLib(z, unit).show(); }
}
