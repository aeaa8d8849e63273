// Families of deterministic automata shared by the automaton-level checks.
#pragma once
#include "gen.hh"
namespace fam {
  using namespace gen;
  struct Named {
    std::string name, space; unsigned long long total; std::function<ref::TA(unsigned long long)> make; std::string alphabet;
    std::function<Named(unsigned long long)> narrow{};      // see fit
  };
  // A family with too many automata for a check is never thinned out: its menus (guards, outcomes, assignments) are cut down until
  // every automaton over them can be enumerated, for several selections from every menu.
  inline Named fit(const Named &f, unsigned long long cap) { return f.total <= cap || !f.narrow ? f : f.narrow(cap); }
  inline Named join(const std::string &n, const std::string &sp, const std::string &al, std::vector<Named> s) {
    unsigned long long tot = 0; for (auto &x : s) tot += x.total;
    auto v = std::make_shared<std::vector<Named>>(std::move(s));
    return {n, sp, tot, [v](unsigned long long i) { for (auto &x : *v) { if (i < x.total) return x.make(i); i -= x.total; } return ref::TA{}; }, al};
  }
  template <class T> std::vector<T> pick(const std::vector<T> &v, size_t m, size_t r) { std::vector<T> o; for (size_t j = 0; j < m; ++j) o.push_back(v[((m > 1 ? j * (v.size() - 1) / (m - 1) : 0) + r) % v.size()]); return o; }
  inline Named plain(const std::string &n, const std::string &sp, const Parts &p) { return {n, sp, p.total(), [p](unsigned long long i) { return p.make(i); }, letters(p.A)}; }
  inline Named narrowParts(const std::string &n, const std::string &sp, const Parts &p, unsigned long long cap) {
    std::vector<Named> s; std::string how; auto b = std::max<unsigned long long>(1, cap / p.parts.size());
    for (auto &part : p.parts) {
      Parts q = p; q.parts = {part}; size_t m = 2;
      auto size = [&](size_t k) { Parts z = q; z.outs.resize(k, z.outs[0]); return z.total(); };
      if (size(2) > b && part.size() > 2) q.parts[0].resize(2);
      if (size(2) > b) q.freeAcc = false;
      if (size(2) > b) { q.parts[0].erase(q.parts[0].begin()); }
      while (m < p.outs.size() && size(m + 1) * (m + 1 < p.outs.size() ? 2 : 1) <= b) ++m;
      size_t R = m == p.outs.size() ? 1 : std::max<size_t>(1, std::min<size_t>(p.outs.size(), b / size(m)));
      for (size_t r = 0; r < R; ++r) { Parts z = q; z.outs = pick(p.outs, m, r); s.push_back(plain(n, sp, z)); }
      how += (how.empty() ? "" : ", ") + std::to_string(q.parts[0].size()) + " guards with " + std::to_string(R) + " menu(s) of " + std::to_string(m) + " of the " + std::to_string(p.outs.size()) + " outcomes";
    }
    return join(n, sp + "; one partition at a time: " + how, letters(p.A), s);
  }
  inline Named wrap(const std::string &n, const std::string &sp, const Parts &p) { auto f = plain(n, sp, p); f.narrow = [=](unsigned long long cap) { return narrowParts(n, sp, p, cap); }; return f; }
  inline Named wrap(const std::string &n, const std::string &sp, const Split &p) {
    return {n, sp, p.total(), [p](unsigned long long i) { return p.make(i); }, letters(p.A), [=](unsigned long long cap) {
      Parts q; q.K = p.K; q.L = p.L; q.A = p.A; for (int x = 0; x < p.K; ++x) { q.parts.push_back({{lt(x, p.C)}, {ge(x, p.C)}}); q.parts.push_back({{le(x, p.C)}, {gt(x, p.C)}}); }
      std::vector<std::vector<ref::Reset>> rs; for (int m = 0; m < 1 << p.K; ++m) { rs.emplace_back(); for (int x = 0; x < p.K; ++x) if (m >> x & 1) rs.back().push_back(zero(x)); }
      q.outs = outcomes(p.L, rs); return narrowParts(n, sp, q, cap); }};
  }
inline ref::TA reversed(const ref::TA &a) {   // same automaton, locations listed backwards
    ref::TA r = a; int n = (int) a.locs.size();
    for (int i = 0; i < n; ++i) { r.locs[i] = a.locs[n - 1 - i]; for (auto &o : r.locs[i].out) for (auto &e : o.second) e.target = n - 1 - e.target; }
    r.init = n - 1 - a.init; return r;
  }
  inline Named backwards(Named f) { auto m = f.make; f.name += "-rev"; f.space += ", locations listed backwards"; f.narrow = nullptr; f.make = [m](unsigned long long i) { return reversed(m(i)); }; return f; }
  // other letters
  inline ref::TA relabelled(ref::TA a, const std::string &from, const std::string &to) {
    for (auto &l : a.locs) { decltype(l.out) o; for (auto &e : l.out) { auto p = from.find(e.first); o[p == std::string::npos ? e.first : to[p]] = e.second; } l.out = o; } return a;
  }
  inline Named relabel(Named f, const std::string &to) { auto m = f.make; auto al = f.alphabet; f.name += "-letters"; f.space += ", letters " + to; f.narrow = nullptr; f.alphabet = to.substr(0, al.size()); f.make = [=](unsigned long long i) { return relabelled(m(i), al, to); }; return f; }
// odd indices additionally hold entries without transitions for the letters that have none
  inline Named withEmptyEntries(Named f) {
    auto m = f.make; auto al = f.alphabet; f.total *= 2; f.space += ", with and without empty entries for letters";
    if (auto nw = f.narrow) f.narrow = [nw](unsigned long long cap) { return withEmptyEntries(nw(cap / 2)); };
    f.make = [m, al](unsigned long long i) { auto a = m(i / 2); if (i % 2) for (auto &l : a.locs) for (char c : al) l.out[c]; return a; };
    return f;
  }
// chains of n edges over K clocks, loc0 -> ... -> loc n (accepting)
struct Chain {
  int K, n; std::vector<std::vector<std::vector<ref::Guard>>> guards; std::vector<std::vector<std::vector<ref::Reset>>> resets; bool loop;
  unsigned long long total() const { unsigned long long t = loop ? n + 1 : 1; for (int i = 0; i < n; ++i) t *= guards[i].size() * resets[i].size(); return t; }
  ref::TA make(unsigned long long idx) const {
    Digits d(idx); ref::TA a; a.nclk = K; a.locs.resize(n + 1); a.locs[n].acc = true;
    int lp = loop ? d.take(n + 1) : 0;
    for (int i = 0; i < n; ++i) { auto g = guards[i][d.take(guards[i].size())]; auto r = resets[i][d.take(resets[i].size())]; a.locs[i].out['a'].push_back({i + 1, g, r}); }
    if (lp) { // a looping alternative on location lp-1, resetting the last clock when it is exactly 1
      a.locs[lp - 1].out['b'].push_back({lp - 1, {ge(K - 1, 1), le(K - 1, 1)}, {zero(K - 1)}});
    }
    return a;
  }
};
  // all menus of a list cut down together, largest first, until the product fits; several selections
  template <class F> std::vector<std::vector<size_t>> cut(std::vector<size_t> sizes, F total, unsigned long long cap) { auto s = sizes; while (total(s) > cap) { auto it = std::max_element(s.begin(), s.end()); if (*it <= 1) break; --*it; } return {s}; }
  inline std::string across(const std::vector<size_t> &s, const std::vector<size_t> &n, size_t R) { std::string r = "; " + std::to_string(R) + " selections of"; for (size_t i = 0; i < s.size(); ++i) r += (i ? ", " : " ") + std::to_string(s[i]) + " of " + std::to_string(n[i]); return r + " entries of the menus"; }
  inline Named wrap(const std::string &n, const std::string &sp, const Chain &p) {
    return {n, sp, p.total(), [p](unsigned long long i) { return p.make(i); }, p.loop ? "ab" : "a", [=](unsigned long long cap) {
      std::vector<size_t> full; for (auto &g : p.guards) full.push_back(g.size()); for (auto &r : p.resets) full.push_back(r.size());
      const size_t R = 4; auto s = cut(full, [&](const std::vector<size_t> &k) { unsigned long long t = p.loop ? p.n + 1 : 1; for (auto x : k) t *= x; return t; }, cap / R)[0];
      std::vector<Named> v; for (size_t r = 0; r < R; ++r) { Chain c = p; for (int i = 0; i < p.n; ++i) { c.guards[i] = pick(p.guards[i], s[i], r); c.resets[i] = pick(p.resets[i], s[p.n + i], r); } v.push_back({n, sp, c.total(), [c](unsigned long long i) { return c.make(i); }, ""}); }
      return join(n, sp + across(s, full, R), p.loop ? "ab" : "a", v); }};
  }
  // 1 clock, 2 locations, 2- and 3-way partitions at constants 1 and 2
  inline Named one(bool big) {
    Parts p; p.K = 1; p.L = 2; p.A = 1;
    p.parts = {{{lt(0, 1)}, {ge(0, 1)}}, {{le(0, 1)}, {gt(0, 1)}}, {{lt(0, 1)}, {ge(0, 1), le(0, 1)}, {gt(0, 1)}}, {{le(0, 0)}, {gt(0, 0), lt(0, 2)}}};
    p.outs = outcomes(2, big ? std::vector<std::vector<ref::Reset>>{{}, {zero(0)}, {cst(0, 1)}} : std::vector<std::vector<ref::Reset>>{{}, {zero(0)}});
    return wrap(big ? "part-1clk-2loc-big" : "part-1clk-2loc", "1 clock, 2 locations, all outcomes of 4 guard partitions (2-3 pieces), resets none/x:=0" + std::string(big ? "/x:=1" : ""), p);
  }
  // the same partitions with a single location: small enough to be enumerated completely everywhere
  inline Named single() {
    Parts p; p.K = 1; p.L = 1; p.A = 1;
    p.parts = {{{lt(0, 1)}, {ge(0, 1)}}, {{le(0, 1)}, {gt(0, 1)}}, {{lt(0, 1)}, {ge(0, 1), le(0, 1)}, {gt(0, 1)}}, {{le(0, 0)}, {gt(0, 0), lt(0, 2)}}};
    p.outs = outcomes(1, {{}, {zero(0)}, {cst(0, 1)}});
    return wrap("part-1clk-1loc", "1 clock, 1 location, all outcomes of 4 guard partitions (2-3 pieces), resets none/x:=0/x:=1", p);
  }
  inline Named split21() { return wrap("split-2clk-1loc", "2 clocks, 1 location, split one clock at 1, any reset set", Split{2, 1, 1, 1}); }
  // 1 clock, 3 locations (unreachable / dead / useless locations appear)
  inline Named three() {
    Parts p; p.K = 1; p.L = 3; p.A = 1;
    p.parts = {{{le(0, 1)}, {gt(0, 1)}}};
    p.outs = outcomes(3, {{}, {zero(0)}});
    return wrap("part-1clk-3loc", "1 clock, 3 locations, split at 1, all outcomes", p);
  }
  // 2 clocks, 2 locations; box partitions; renaming and constant assignments
  inline Named two(bool big) {
    Parts p; p.K = 2; p.L = 2; p.A = 1;
    p.parts = {{{lt(0, 1), le(1, 1)}, {lt(0, 1), gt(1, 1)}, {ge(0, 1)}}};
    if (big) p.parts.push_back({{gt(1, 0), lt(1, 1)}, {ge(1, 1), lt(0, 2)}});
    p.outs = outcomes(2, {{zero(0)}, {cpy(0, 1)}, {zero(1), cst(0, 1)}});
    if (big) { p.outs.push_back({1, {}}); p.outs.push_back({1, {cpy(0, 1), cpy(1, 0)}}); }
    return wrap(big ? "part-2clk-2loc-big" : "part-2clk-2loc", "2 clocks, 2 locations, box partitions, resets to constants, copies" + std::string(big ? ", swaps" : ""), p);
  }
  inline Named split2() { return wrap("split-2clk-2loc", "2 clocks, 2 locations, split one clock at 1, any target, any reset set", Split{2, 2, 1, 1}); }
  // two letters, 1 clock
  inline Named letters2() {
    Parts p; p.K = 1; p.L = 2; p.A = 2;
    p.parts = {{{lt(0, 1)}, {ge(0, 1)}}};
    p.outs = outcomes(2, {{}, {zero(0)}}); p.outs.erase(p.outs.begin() + 2);
    return wrap("part-1clk-2loc-2let", "1 clock, 2 locations, 2 letters, split at 1", p);
  }
  inline Named larger() {
    Parts p; p.K = 1; p.L = 2; p.A = 1;
    p.parts = {{{lt(0, 2)}, {ge(0, 2), le(0, 3)}, {gt(0, 3)}}, {{gt(0, 1), lt(0, 3)}, {ge(0, 3)}}};
    p.outs = outcomes(2, {{}, {zero(0)}});
    return wrap("part-1clk-2loc-c3", "1 clock, 2 locations, constants up to 3", p);
  }
  inline Named tiny3clk() {
    Parts p; p.K = 3; p.L = 2; p.A = 1;
    p.parts = {{{lt(0, 1)}, {ge(0, 1), le(2, 1)}}, {{gt(1, 1), le(2, 2)}, {le(1, 1)}}};
    p.outs = outcomes(2, {{}, {zero(1)}, {cpy(2, 0), zero(0)}});
    return wrap("part-3clk-2loc", "3 clocks, 2 locations, 2-way partitions on different clocks, copies", p);
  }
  // all simultaneous assignments of single clocks, pairs and rotations of 3 clocks along a chain; only the last guard looks at a clock.
  // The locations are listed forwards for even and backwards for odd indices.
  inline Named copies3() {
    std::vector<std::vector<ref::Reset>> r = {{}, {zero(0)}, {zero(1)}, {zero(2)}, {cpy(0, 1)}, {cpy(0, 2)}, {cpy(1, 0)}, {cpy(1, 2)}, {cpy(2, 0)}, {cpy(2, 1)},
      {cpy(0, 1), cpy(1, 2)}, {cpy(2, 1), cpy(1, 0)}, {zero(0), zero(1)}, {cst(1, 1), cpy(0, 1)}};
    Chain c{3, 4, {{{}}, {{}}, {{}}, {{ge(0, 2)}, {lt(1, 1)}}}, {r, r, r, {{}}}, false};
    auto n = c.total();
    return {"copies-3clk", "3 clocks, chains of 4 edges with 14 assignments (copies, constants) each, one clock compared at the end, locations in both orders", 2 * n, [c](unsigned long long i) {
      auto a = c.make(i / 2); if (i % 2) a = reversed(a); return a; }, "a"};
  }
  // constants that grow along a chain of six locations
  inline Named growing() {
    Chain c{2, 5, {}, {}, false};
    for (int i = 1; i <= 5; ++i) { c.guards.push_back({{}, {ge(0, i)}, {ge(0, i), lt(1, i + 1)}}); c.resets.push_back(i == 5 ? std::vector<std::vector<ref::Reset>>{{}} : std::vector<std::vector<ref::Reset>>{{}, {zero(1)}, {cpy(0, 1)}}); }
    auto n = c.total();
    return {"growing-2clk", "2 clocks, chains of 5 edges with guards whose constants grow from 1 to 6, three assignments each, with or without an unreachable location, locations in both orders", 4 * n, [c](unsigned long long i) { auto a = c.make(i / 4); if (i / 2 % 2) { a.locs.emplace_back(); a.locs.back().out['a'].push_back({0, {ge(0, 9)}, {}}); } return i % 2 ? reversed(a) : a; }, "a"};
  }
  inline Named copies2(bool big) {
    std::vector<std::vector<ref::Reset>> r = {{}, {zero(0)}, {zero(1)}, {cpy(0, 1)}, {cpy(1, 0)}, {cpy(0, 1), cpy(1, 0)}, {cpy(0, 1), zero(1)}, {cpy(1, 0), cst(0, 1)}};
    std::vector<std::vector<ref::Guard>> g = {{ge(0, 2)}, {lt(1, 1)}, {gt(0, 1), le(1, 1)}}, m = big ? std::vector<std::vector<ref::Guard>>{{}, {gt(1, 1)}} : std::vector<std::vector<ref::Guard>>{{}};
    return wrap("copies-2clk", "2 clocks, chains of 4 edges with 8 assignments (copies, swaps, constants) each, guards at the end" + std::string(big ? " and in the middle" : ""), Chain{2, 4, {{{}}, m, {{}}, g}, {r, r, r, {{}}}, false});
  }
  // one location; every cell of a grid over the clocks is absent or carries its own transition
  inline Named grid(int kind) {
    std::vector<std::vector<ref::Guard>> cells; int K; std::vector<std::vector<ref::Reset>> rs; std::string sp;
    auto cross = [](const std::vector<std::vector<std::vector<ref::Guard>>> &axes) {
      std::vector<std::vector<ref::Guard>> r{{}};
      for (auto &a : axes) { std::vector<std::vector<ref::Guard>> n; for (auto &x : r) for (auto &g : a) { auto y = x; y.insert(y.end(), g.begin(), g.end()); n.push_back(y); } r = n; }
      return r; };
    if (kind == 0) { K = 2; cells = cross({{{lt(0, 1)}, {ge(0, 1), le(0, 1)}, {gt(0, 1)}}, {{le(1, 1)}, {gt(1, 1), lt(1, 2)}, {ge(1, 2)}}}); rs = {{}, {zero(0)}}; sp = "2 clocks, 3 x 3 cells"; }
    else if (kind == 1) { K = 3; cells = cross({{{lt(0, 1)}, {ge(0, 1)}}, {{le(1, 1)}, {gt(1, 1)}}, {{le(2, 2)}, {gt(2, 2)}}}); rs = {{}, {zero(2), zero(0)}}; sp = "3 clocks, 2 x 2 x 2 cells"; }
    else { K = 2; cells = cross({{{le(0, 1)}, {gt(0, 1), lt(0, 2)}, {ge(0, 2), le(0, 2)}, {gt(0, 2)}}, {{lt(1, 1)}, {ge(1, 1)}}}); rs = {{}, {zero(1)}}; sp = "2 clocks, 4 x 2 cells"; }
    unsigned long long n = 1; for (size_t i = 0; i < cells.size(); ++i) n *= 1 + rs.size();
    return {"grid-" + std::to_string(kind), "1 location, " + sp + ", every cell without or with a transition of its own (with or without assignments)", n, [=](unsigned long long i) {
      Digits x(i); ref::TA a; a.nclk = K; a.locs.resize(1); a.locs[0].acc = true;
      for (auto &c : cells) { int k = x.take(1 + rs.size()); if (k) a.locs[0].out['a'].push_back({0, c, rs[k - 1]}); }
      return a; }, "a"};
  }
  // four locations in a row, the last one accepting; both letters of the first two locations lead on (possibly over a location)
  struct Ladder {
    int K; std::vector<std::vector<ref::Guard>> G; std::vector<std::vector<ref::Reset>> R;
    explicit Ladder(int K) : K(K) {
      if (K == 1) { G = {{}, {lt(0, 1)}, {ge(0, 1)}}; R = {{}, {zero(0)}}; } else { G = {{}, {lt(0, 1)}, {ge(1, 1)}, {le(1, 1)}}; R = {{}, {zero(0)}, {cpy(1, 0)}}; }
    }
    unsigned long long total() const { unsigned long long g = G.size(), r = R.size(); return (g * r * 2) * (g * r * 2) * (g * r * 2) * (1 + g * r) * g; }
    ref::TA make(unsigned long long i) const {
      Digits x(i); ref::TA a; a.nclk = K; a.locs.resize(4); a.locs[3].acc = true;
      a.locs[2].out['a'] = {{3, G[x.take(G.size())], {}}};
      for (int l = 0; l < 2; ++l) for (char ch : {'a', 'b'}) {
        if (l == 1 && ch == 'b') { int k = x.take(1 + G.size() * R.size()); if (k) { --k; a.locs[1].out['b'] = {{2, G[k % G.size()], R[k / G.size()]}}; } continue; }
        int t = l + 1 + x.take(2); auto g = G[x.take(G.size())]; auto r = R[x.take(R.size())]; a.locs[l].out[ch] = {{t, g, r}};
      }
      return a;
    }
  };
  inline Named ladder(int K, unsigned long long cap) {
    Ladder f(K); std::string n = "ladder-" + std::to_string(K) + "clk", sp = "four locations in a row, two letters, " + std::to_string(K) + " clock(s)";
    if (f.total() <= cap) return {n, sp, f.total(), [f](unsigned long long i) { return f.make(i); }, "ab"};
    std::vector<size_t> full{f.G.size(), f.R.size()}, s = full; const size_t S = std::max(f.G.size(), f.R.size());
    auto tot = [&] { Ladder l = f; l.G.resize(s[0]); l.R.resize(s[1]); return l.total(); };
    while (tot() > cap / S && s[0] + s[1] > 3) --*std::max_element(s.begin(), s.end());
    std::vector<Named> v; for (size_t r = 0; r < S; ++r) { Ladder l = f; l.G = pick(f.G, s[0], r); l.R = pick(f.R, s[1], r); v.push_back({n, sp, l.total(), [l](unsigned long long i) { return l.make(i); }, ""}); }
    return join(n, sp + across(s, full, S), "ab", v);
  }
}
