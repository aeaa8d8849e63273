// The space of all regions of n clocks with values in [0, M] (no lumping above a maximal constant): every set of
// valuations definable with integer (difference) bounds is, inside the window, a set of such regions.
// A region is represented by one point with coordinates in units of 1/Q, Q = n + 1.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
namespace rs {
  using Pt = std::vector<int>;
  using Set = std::vector<uint64_t>;
  inline bool get(const Set &s, size_t i) { return s[i >> 6] >> (i & 63) & 1; }
  inline void put(Set &s, size_t i) { s[i >> 6] |= 1ull << (i & 63); }
  // canonical representative of the region of an arbitrary point given in units of 1/S
  inline Pt canon(const std::vector<long long> &p, long long S, int Q) {
    std::vector<long long> fr; for (auto v : p) { long long f = ((v % S) + S) % S; if (f) fr.push_back(f); }
    std::sort(fr.begin(), fr.end()); fr.erase(std::unique(fr.begin(), fr.end()), fr.end());
    Pt r; for (auto v : p) { long long f = ((v % S) + S) % S; long long i = (v - f) / S; int rank = f ? int(std::lower_bound(fr.begin(), fr.end(), f) - fr.begin()) + 1 : 0; r.push_back(int(i) * Q + rank); }
    return r;
  }
  struct Space {
    int n, M, Q; std::vector<Pt> pts; std::map<Pt, int> idx; std::vector<int> pred, succ;   // immediate time predecessor / successor or -1
    std::vector<std::vector<std::vector<int>>> fibres;  // [x]: groups of regions with the same projection without x
    std::vector<std::vector<int>> fibreOf;
    std::vector<int> maxc;              // largest coordinate (ceil)
    Space(int n_, int M_) : n(n_), M(M_), Q(n_ + 1) {
      Pt p(n, 0);
      for (;;) {
        std::vector<long long> l(p.begin(), p.end()); if (canon(l, Q, Q) == p) { idx[p] = (int) pts.size(); pts.push_back(p); }
        int i = 0; while (i < n && ++p[i] > M * Q) p[i++] = 0; if (i == n) break;
      }
      pred.assign(pts.size(), -1); succ.assign(pts.size(), -1); maxc.resize(pts.size());
      for (size_t k = 0; k < pts.size(); ++k) {
        auto &q = pts[k]; bool anyInt = false; int lo = Q, m = 0;
        for (int v : q) { if (v % Q == 0) anyInt = true; else lo = std::min(lo, v % Q); m = std::max(m, (v + Q - 1) / Q); }
        maxc[k] = m; std::vector<long long> l;
        for (int v : q) l.push_back(anyInt ? 2ll * v - 1 : 2ll * (v - lo));
        bool ok = true; for (auto v : l) ok &= v >= 0;
        if (n && ok) { auto it = idx.find(canon(l, 2 * Q, Q)); if (it != idx.end()) { pred[k] = it->second; succ[it->second] = (int) k; } }
      }
      fibres.resize(n); fibreOf.assign(n, std::vector<int>(pts.size()));
      for (int x = 0; x < n; ++x) {
        std::map<Pt, int> g;
        for (size_t k = 0; k < pts.size(); ++k) {
          std::vector<long long> o; for (int i = 0; i < n; ++i) if (i != x) o.push_back(pts[k][i]);
          Pt c = canon(o, Q, Q); auto it = g.emplace(c, (int) fibres[x].size()); if (it.second) fibres[x].push_back({});
          fibres[x][it.first->second].push_back((int) k); fibreOf[x][k] = it.first->second;
        }
      }
    }
    size_t size() const { return pts.size(); }
    Set none() const { return Set((pts.size() + 63) / 64, 0); }
    int find(const std::vector<long long> &p, long long S) const { auto it = idx.find(canon(p, S, Q)); return it == idx.end() ? -1 : it->second; }
    template<class F> Set filter(F f) const { Set s = none(); for (size_t k = 0; k < pts.size(); ++k) if (f(pts[k])) put(s, k); return s; }
    Set up(const Set &z) const {        // some time predecessor is in z
      Set r = z; for (size_t k = 0; k < pts.size(); ++k) { int p = (int) k; while (p >= 0 && !get(z, p)) p = pred[p]; if (p >= 0) put(r, k); } return r;
    }
    Set down(const Set &z) const { Set r = z; for (size_t k = 0; k < pts.size(); ++k) if (get(z, k)) for (int p = pred[k]; p >= 0 && !get(r, p); p = pred[p]) put(r, p); return r; }
    Set project(const Set &z, int x) const {   // x becomes unconstrained
      Set r = none(); for (auto &f : fibres[x]) { bool any = false; for (int k : f) any |= get(z, k); if (any) for (int k : f) put(r, k); } return r;
    }
    std::string show(size_t k) const { std::string s = "("; for (int i = 0; i < n; ++i) { char b[24]; snprintf(b, 24, "%s%d", i ? "," : "", pts[k][i] / Q); s += b; if (pts[k][i] % Q) { snprintf(b, 24, "+f%d", pts[k][i] % Q); s += b; } } return s + ")"; }
    // region of a valuation of doubles (exact dyadic values; anything closer than 1e-9 to a tie is treated as that tie)
    int ofDoubles(const std::vector<double> &v, double unit = 1) const {
      std::vector<long long> l; for (double d : v) l.push_back(std::llround(d / unit * (1ll << 30))); for (auto x : l) if (x < 0) return -1;
      return find(l, 1ll << 30);
    }
  };
  inline bool sub(const Set &a, const Set &b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] & ~b[i]) return false; return true; }
  inline bool empty(const Set &a) { for (auto w : a) if (w) return false; return true; }
  inline Set both(const Set &a, const Set &b) { Set r = a; for (size_t i = 0; i < a.size(); ++i) r[i] &= b[i]; return r; }
  inline Set minus(const Set &a, const Set &b) { Set r = a; for (size_t i = 0; i < a.size(); ++i) r[i] &= ~b[i]; return r; }
  inline int first(const Set &a) { for (size_t i = 0; i < a.size(); ++i) if (a[i]) return int(i * 64 + __builtin_ctzll(a[i])); return -1; }
}
