// C07 zone operations denote exact sets; C08 emptiness, sampling, inclusion, equality; C09 extrapolation
#include "mc.hh"
#include "dbm.hh"
using namespace learnta;
using dbm::D; using rs::Set; using rs::Space; using mc::Case; using mc::u64;
using Resets = std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>>;

// ----- enumeration of matrices -----
// 2 clocks: lower bounds {>=0,>0,..,>=C}, upper bounds {<=0,<1,..,<=C,none}, differences {<-C..<=C,none}
struct Raw2 {
  int C; u64 L() const { return 2 * C + 2 - 1; } u64 U() const { return 2 * C + 2; } u64 F() const { return 4 * C + 3; }
  u64 total() const { return L() * L() * U() * U() * F() * F(); }
  D make(u64 i) const {
    D d(2); auto take = [&](u64 n) { u64 r = i % n; i /= n; return (int) r; };
    for (int x = 1; x <= 2; ++x) { int l = take(L()); d.at(0, x) = (l & 1) ? 2 * -(l / 2) : 2 * -(l / 2) + 1; }
    for (int x = 1; x <= 2; ++x) { int u = take(U()); d.at(x, 0) = u == (int) U() - 1 ? dbm::INF : 1 + u; }
    for (int x = 1; x <= 2; ++x) { int f = take(F()); d.at(x, 3 - x) = f == (int) F() - 1 ? dbm::INF : 2 * -C + f; }
    return d;
  }
};
// n clocks, all non-negative, plus k extra bounds out of a menu
struct Menu {
  int n, C, k; std::vector<std::array<int, 3>> m;
  Menu(int n_, int C_, int k_) : n(n_), C(C_), k(k_) {
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) if (i != j)
      for (int b = (j == 0 ? 1 : -2 * C); b <= (i == 0 ? 0 : 2 * C + 1); ++b) m.push_back({i, j, b});
  }
  u64 total() const { u64 t = 1; for (int i = 0; i < k; ++i) t *= m.size(); return t; }
  bool make(u64 i, D &d) const {        // false: same as another index
    int last = -1; d = D(n); for (int x = 1; x <= n; ++x) d.at(0, x) = 1;
    for (int q = 0; q < k; ++q) { int a = i % m.size(); i /= m.size(); if (a < last) return false; if (a == last && a) return false; last = a; auto &t = m[a]; d.at(t[0], t[1]) = std::min(d.at(t[0], t[1]), t[2]); }
    return true;
  }
};
static std::string bname(int b) { return std::string(b & 1 ? "<=" : "<") + std::to_string(b >> 1); }

// ----- operations: on the zone and on the set -----
struct Op { std::string name; int kind; int a = 0, b = 0, c = 0; Resets rs; bool final = false; };
enum { TIGHT, GUARD, ELAPSE, RESET, APPLY, CANON, DOWN, REVERT, UNCON, AND, SAT };
static std::string nm(int x) { return x < 0 ? "0" : std::string(1, char('x' + x)); }
static std::string rname(const Resets &r) {
  std::string s; for (auto &[x, v]: r) { s += (s.empty() ? "" : ",") + nm(x) + ":="; if (v.index()) s += nm(std::get<ClockVariables>(v)); else { char b[16]; snprintf(b, 16, "%g", std::get<double>(v)); s += b; } }
  return "{" + s + "}";
}
static std::vector<Op> ops(int n, int C, double unit, bool finals, bool small, int most = 99) {       // most: number of clocks assigned at once
  std::vector<Op> r;
  for (int x = 0; x < n; ++x) for (int o = 0; o < 4; ++o) for (int c = (o == 1 ? 0 : o == 0 || o == 3 ? (o == 0 ? 1 : 0) : 0); c <= C; ++c) {
    static const char *on[] = {"<", "<=", ">=", ">"}; if (small && c == 0 && o >= 2 && o != 3) continue;
    r.push_back({nm(x) + on[o] + std::to_string(c), GUARD, x, o, c});
  }
  for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) if (x != y) for (int b = -2 * C; b <= 2 * C + 1; ++b) { if (small && (b < -1 || b > 2)) continue; r.push_back({nm(x) + "-" + nm(y) + bname(b), TIGHT, x, y, b}); }
  if (!small) for (int x = 0; x < n; ++x) for (int b = 1; b <= 2 * C + 1; ++b) { r.push_back({"tighten " + nm(x) + "-0" + bname(b), TIGHT, x, -1, b}); r.push_back({"tighten 0-" + nm(x) + bname(2 - b), TIGHT, -1, x, 2 - b}); }
  r.push_back({"elapse", ELAPSE}); r.push_back({"canonize", CANON}); if (!small) r.push_back({"isSatisfiable", SAT});
  for (int x = 0; x < n; ++x) r.push_back({"reset " + nm(x), RESET, x});
  std::vector<Resets> as;
  {
    // all simultaneous assignments: each clock kept / constant / copy (in increasing order of clocks, and reversed)
    std::vector<int> ch(n, 0); int opt = 1 + (C + 1) + (n - 1);
    for (;;) {
      Resets a; for (int x = 0; x < n; ++x) { int o = ch[x]; if (!o) continue; if (o <= C + 1) a.push_back({(ClockVariables) x, (o - 1) * unit}); else { int y = o - C - 2; if (y >= x) ++y; a.push_back({(ClockVariables) x, (ClockVariables) y}); } }
      if ((int) a.size() <= most) as.push_back(a);
      if (a.size() > 1 && !small) { std::reverse(a.begin(), a.end()); as.push_back(a); }
      int i = 0; while (i < n && ++ch[i] >= opt) ch[i++] = 0; if (i == n) break;
    }
    if (!small) for (int x = 0; x < n; ++x) { as.push_back({{(ClockVariables) x, 1.0 * unit}, {(ClockVariables) x, 0.0}}); }     // the last assignment of a clock wins
  }
  for (auto &a : as) r.push_back({"apply" + rname(a), APPLY, 0, 0, 0, a});
  if (finals) {
    r.push_back({"reverseElapse", DOWN, 0, 0, 0, {}, true});
    for (auto &a : as) r.push_back({"revert" + rname(a), REVERT, 0, 0, 0, a, true});
    for (int x = 0; x < n; ++x) r.push_back({"unconstrain " + nm(x), UNCON, x, 0, 0, {}, true});
  }
  return r;
}
static bool guardHolds(int v, int o, int c) { return o == 0 ? v < c : o == 1 ? v <= c : o == 2 ? v >= c : v > c; }
static std::vector<long long> assign(const rs::Pt &p, const Resets &rs, int Q, double unit) {
  std::vector<long long> q(p.begin(), p.end());
  for (auto &[x, v]: rs) q[x] = v.index() ? p[std::get<ClockVariables>(v)] : std::llround(std::get<double>(v) / unit) * Q;
  return q;
}
static void onZone(Zone &z, const Op &o, double unit) {
  switch (o.kind) {
    case TIGHT: z.tighten(o.a, o.b, dbm::bound(o.c, unit)); break;
    case GUARD: z.tighten(Constraint{(ClockVariables) o.a, o.b == 0 ? Constraint::Order::lt : o.b == 1 ? Constraint::Order::le : o.b == 2 ? Constraint::Order::ge : Constraint::Order::gt, (int) std::llround(o.c * unit)}); break;
    case ELAPSE: z.elapse(); break; case RESET: z.reset(o.a); break; case APPLY: z.applyResets(o.rs); break; case CANON: z.canonize(); break;
    case DOWN: z.reverseElapse(); break; case REVERT: z.revertResets(o.rs); break; case UNCON: z.unconstrain(o.a); break; case SAT: z.isSatisfiable(); break;
  }
}
// the same operations on matrices with the reference closure: exact on every number of clocks. Checked against the sets of
// regions in step-2clk and step-3clk, and used where there are too many regions. d is closed.
static D nonneg(D d, bool &ok) { for (int x = 0; x <= d.n; ++x) d.at(x, x) = std::min(d.at(x, x), 1); for (int x = 1; x <= d.n; ++x) d.at(0, x) = std::min(d.at(0, x), 1); ok = d.close(); return d; }
static D onMatrix(D d, const Op &o, double unit) {
  int n = d.n; auto low = [&](int i, int j, int b) { d.at(i, j) = std::min(d.at(i, j), b); };
  switch (o.kind) {
    case TIGHT: low(o.a + 1, o.b + 1, o.c); break;
    case GUARD: { int x = o.a + 1; if (o.b < 2) low(x, 0, 2 * o.c + (o.b == 1)); else low(0, x, -2 * o.c + (o.b == 2)); break; }
    case ELAPSE: for (int x = 1; x <= n; ++x) d.at(x, 0) = dbm::INF; break;
    case RESET: case APPLY: {
      Resets rs = o.kind == RESET ? Resets{{(ClockVariables) o.a, 0.0}} : o.rs; D e = d;
      std::vector<int> src(n + 1), off(n + 1, 0); std::iota(src.begin(), src.end(), 0);
      for (auto &[x, v]: rs) { src[x + 1] = v.index() ? std::get<ClockVariables>(v) + 1 : 0; off[x + 1] = v.index() ? 0 : (int) std::llround(std::get<double>(v) / unit); }
      for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) { int b = i == j || src[i] == src[j] ? 1 : e.at(src[i], src[j]); d.at(i, j) = b >= dbm::INF ? b : b + 2 * (off[i] - off[j]); }
      for (int i = 0; i <= n; ++i) d.at(i, i) = 1;
      break;
    }
    case DOWN: for (int x = 1; x <= n; ++x) { d.at(0, x) = 1; } break;
    case REVERT: {
      D e = d; d = D(n); std::vector<int> src(n + 1), off(n + 1, 0); std::iota(src.begin(), src.end(), 0);
      for (auto &[x, v]: o.rs) { src[x + 1] = v.index() ? std::get<ClockVariables>(v) + 1 : 0; off[x + 1] = v.index() ? 0 : (int) std::llround(std::get<double>(v) / unit); }
      for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) if (i != j && e.at(i, j) < dbm::INF) low(src[i], src[j], e.at(i, j) - 2 * (off[i] - off[j]));
      break;
    }
    case UNCON: for (int j = 0; j <= n; ++j) if (j != o.a + 1) { d.at(o.a + 1, j) = dbm::INF; d.at(j, o.a + 1) = dbm::INF; } break;
  }
  return d;
}
static bool sameMatrix(const Zone &z, const D &want, double unit, std::string &where) {
  bool a, b; D g = nonneg(dbm::fromLib(z, unit), a), w = nonneg(want, b);
  if (a == b && (!a || g.m == w.m)) return true;
  where = "is " + (a ? "[" + g.show() + "]" : std::string("empty")) + " instead of " + (b ? "[" + w.show() + "]" : "empty"); return false;
}
static void oneStepMatrix(const D &d, const std::vector<Op> &os, Case &c) {
  c.key("matrix " + d.show()); c.states(); c.nontrivial();
  for (auto &o : os) {
    Zone z = dbm::toLib(d, 1); onZone(z, o, 1); D want = onMatrix(d, o, 1); std::string w; c.transitions(); c.traces();
    if (!sameMatrix(z, want, 1, w)) { c.fail(o.name + " on [" + d.show() + "] gives [" + dbm::show(z) + "], which " + w); return; }
    Zone k = z; k.canonize();
    if (!sameMatrix(k, want, 1, w)) { c.fail(o.name + " and canonize on [" + d.show() + "] gives [" + dbm::show(k) + "], which " + w); return; }
    bool ok; nonneg(want, ok); D cw = want; bool okAll = cw.close();
    if (k.isSatisfiableNoCanonize() != okAll) { c.fail(o.name + " on [" + d.show() + "]: called " + (okAll ? "empty" : "non-empty")); return; }
  }
  if (c.idx % 1009 == 5) c.sample("[" + d.show() + "]: " + std::to_string(os.size()) + " operations");
}
// shrink: how much the trustworthy window [0,W] loses
static Set onSet(const Space &sp, const Set &z, const Op &o, double unit, int &shrink) {
  shrink = 0; int Q = sp.Q;
  switch (o.kind) {
    case TIGHT: { int b = o.c; return rs::both(z, sp.filter([&](const rs::Pt &p) { int v = (o.a < 0 ? 0 : p[o.a]) - (o.b < 0 ? 0 : p[o.b]), c = (b >> 1) * Q; return b & 1 ? v <= c : v < c; })); }
    case GUARD: return rs::both(z, sp.filter([&](const rs::Pt &p) { return guardHolds(p[o.a], o.b, o.c * Q); }));
    case ELAPSE: return sp.up(z);
    case RESET: case APPLY: {
      Resets rs = o.kind == RESET ? Resets{{(ClockVariables) o.a, 0.0}} : o.rs; Set r = sp.none(); shrink = 2;
      for (size_t k = 0; k < sp.size(); ++k) if (rs::get(z, k)) { int q = sp.find(assign(sp.pts[k], rs, Q, unit), Q); if (q >= 0) rs::put(r, q); }
      return r;
    }
    case CANON: case SAT: return z;
    case DOWN: shrink = 2; return sp.down(z);
    case REVERT: return [&] { Set r = sp.none(); for (size_t k = 0; k < sp.size(); ++k) { int q = sp.find(assign(sp.pts[k], o.rs, Q, unit), Q); if (q >= 0 && rs::get(z, q)) rs::put(r, k); } return r; }();
    case UNCON: shrink = 2; return sp.project(z, o.a);
  }
  return z;
}
static Set window(const Space &sp, int W) { Set s = sp.none(); for (size_t k = 0; k < sp.size(); ++k) if (sp.maxc[k] <= W) rs::put(s, k); return s; }
static bool sameIn(const Space &sp, const Zone &z, const Set &want, const Set &win, double unit, std::string &where) {
  Set got = rs::both(dbm::fromLib(z, unit).set(sp), win), w = rs::both(want, win);
  if (got == w) return true;
  int a = rs::first(rs::minus(got, w)), b = rs::first(rs::minus(w, got));
  where = a >= 0 ? "contains " + sp.show(a) + " which should not be in it" : "misses " + sp.show(b);
  return false;
}
static const Space &space(int n, int M) { static std::map<std::pair<int, int>, Space *> m; auto &p = m[{n, M}]; if (!p) p = new Space(n, M); return *p; }

// every operation on one canonical zone
static void oneStep(const D &d, double unit, int M, int W, const std::vector<Op> &os, Case &c, const std::string &pre) {
  c.key(pre + d.show());
  const Space &sp = space(d.n, M); Set z0 = d.set(sp); static std::map<std::array<int, 3>, Set> wins; 
  c.states(); c.nontrivial();
  for (auto &o : os) {
    if (unit != 1 && o.kind == GUARD && std::fmod(o.c * unit, 1.0) != 0) continue;
    Zone z = dbm::toLib(d, unit); onZone(z, o, unit); int sh; Set want = onSet(sp, z0, o, unit, sh);
    auto &win = wins[{d.n, M, W}]; if (win.empty()) win = window(sp, W);
    std::string w; c.transitions(); c.traces(sp.size());
    if (std::string rw; !sameIn(sp, dbm::toLib(onMatrix(d, o, unit), unit), want, win, unit, rw)) { c.fail("reference mismatch: " + o.name + " on [" + d.show() + "] " + rw); return; }
    if (!sameIn(sp, z, want, win, unit, w)) { c.fail(pre + o.name + " on [" + d.show() + "] gives [" + dbm::show(z, unit) + "], which " + w); return; }
    Zone k = z; k.canonize();
    if (!sameIn(sp, k, want, win, unit, w)) { c.fail(pre + o.name + " and canonize on [" + d.show() + "] gives [" + dbm::show(k, unit) + "], which " + w); return; }
  }
  if (c.idx % 1009 == 5) c.sample("[" + d.show() + "]: " + std::to_string(os.size()) + " operations");
}
// all sequences of operations from zone z0 (depth first)
static void sequences(Zone z, Set s, int n, int C, double unit, int depth, int M, int W, const std::vector<Op> &os, const std::string &trail, Case &c) {
  const Space &sp = space(n, M);
  for (auto &o : os) {
    if (c.failed()) return;
    Zone y = z; onZone(y, o, unit); int sh; Set want = onSet(sp, s, o, unit, sh); std::string w;
    c.transitions(); c.traces(); int W2 = W - sh; static std::map<std::array<int, 3>, Set> wins; auto &win = wins[{n, M, W2}]; if (win.empty()) win = window(sp, W2);
    if (!sameIn(sp, y, want, win, unit, w)) { c.fail(trail + " " + o.name + " gives [" + dbm::show(y, unit) + "], which " + w); return; }
    if (rs::empty(want)) { Zone k = y; if (k.isSatisfiable()) { c.fail(trail + " " + o.name + " is empty but called satisfiable"); } continue; }
    c.states();
    if (depth > 1 && !o.final) { Zone k = y; if (o.kind == RESET || o.kind == UNCON) k.canonize(); sequences(k, want, n, C, unit, depth - 1, M, W2, os, trail + " " + o.name, c); }
    else { Zone k = y; if (!k.isSatisfiable()) c.fail(trail + " " + o.name + " is not empty but called unsatisfiable"); }
  }
}
// ----- C08 -----
static void queries(const D &raw, double unit, int M, Case &c) {
  c.key("raw " + raw.show()); const Space &sp = space(raw.n, M);
  Set s = raw.set(sp); D cl = raw; bool ok = cl.close(); c.states(); c.traces(sp.size());
  if (ok == rs::empty(s)) { c.fail("reference mismatch"); return; }
  Zone z = dbm::toLib(raw, unit);
  { Zone k = z; if (k.isSatisfiable() != ok) { c.fail("[" + raw.show() + "] is called " + (ok ? "empty" : "non-empty")); return; } }
  { Zone k = z; if (bool(k) != ok) { c.fail("[" + raw.show() + "] converts to " + (ok ? "false" : "true")); return; } }
  { Zone k = z; k.canonize(); if (k.isSatisfiableNoCanonize() != ok) { c.fail("canonized [" + raw.show() + "] is called " + (ok ? "empty" : "non-empty")); return; } }
  c.transitions(3);
  if (!ok) return;
  c.nontrivial();
  Zone k = z; k.canonize(); Zone ref = dbm::toLib(cl, unit);
  if (!(k == ref)) { c.fail("canonize of [" + raw.show() + "] gives [" + dbm::show(k, unit) + "] instead of [" + cl.show() + "]"); return; }
  if (hash_value(k) != hash_value(ref)) { c.fail("equal zones with different hashes: [" + cl.show() + "]"); return; }
  if (!k.strictEqual(ref) || !k.equalIgnoreZero(ref)) { c.fail("equal zones not strictly equal: [" + cl.show() + "]"); return; }
  if (k.getNumOfVar() != (size_t) raw.n) { c.fail("wrong number of variables"); return; }
  for (int form = 0; form < 2; ++form) {
    Zone q = form ? k : z; auto v = q.sample(); c.transitions();
    int r = (int) v.size() == raw.n ? sp.ofDoubles(v, unit) : -2;
    if (r < 0 || !rs::get(s, r)) { std::string t; for (double x : v) t += " " + std::to_string(x); c.fail("sample of [" + raw.show() + "] is" + t + ", not in the zone"); return; }
  }
  if (c.idx % 5003 == 5) c.sample("[" + raw.show() + "] -> [" + cl.show() + "]");
}
// the same, against the reference closure only
static void queriesMatrix(const D &raw, Case &c) {
  c.key("raw " + std::to_string(raw.n) + " clocks: " + raw.show()); D cl = raw; bool ok = cl.close(); c.states(); c.traces(4); c.transitions(4);
  Zone z = dbm::toLib(raw);
  { Zone k = z; if (k.isSatisfiable() != ok) { c.fail("[" + raw.show() + "] is called " + (ok ? "empty" : "non-empty")); return; } }
  if (!ok) return;
  c.nontrivial(); Zone k = z; k.canonize(); Zone ref = dbm::toLib(cl);
  if (!(k == ref) || !k.strictEqual(ref) || hash_value(k) != hash_value(ref)) { c.fail("canonize of [" + raw.show() + "] gives [" + dbm::show(k) + "] instead of [" + cl.show() + "]"); return; }
  auto v = z.sample(); rs::Pt p; for (double x : v) p.push_back(std::llround(x * 65536));
  bool exact = (int) v.size() == raw.n; for (size_t i = 0; exact && i < v.size(); ++i) exact = v[i] * 65536 == (double) p[i] && v[i] >= 0;
  if (!exact || !raw.has(p, 65536)) { std::string t; for (double x : v) t += " " + std::to_string(x); c.fail("sample of [" + raw.show() + "] is" + t + ", not in the zone"); return; }
}
static void pairsMatrix(const std::vector<D> &all, size_t i, Case &c) {
  c.key("pairs, " + std::to_string(all[i].n) + " clocks [" + all[i].show() + "]"); c.states(); c.nontrivial(); Zone za = dbm::toLib(all[i]);
  for (size_t j = 0; j < all.size(); ++j) {
    Zone zb = dbm::toLib(all[j]); c.transitions(3); c.traces(3); auto who = [&] { return "[" + all[i].show() + "] and [" + all[j].show() + "]"; };
    bool in = true; D w = all[i]; for (size_t q = 0; q < w.m.size(); ++q) { in &= all[j].m[q] <= all[i].m[q]; w.m[q] = std::min(w.m[q], all[j].m[q]); }
    if (za.includes(zb) != in) { c.fail("inclusion of " + who() + " is answered " + (in ? "no" : "yes")); return; }
    if ((za == zb) != (i == j) || za.strictEqual(zb) != (i == j)) { c.fail("equality of " + who()); return; }
    bool ok = w.close(); Zone x = za && zb, y = za; y &= zb;
    if (x.isSatisfiableNoCanonize() != ok || y.isSatisfiableNoCanonize() != ok) { c.fail("emptiness of the intersection of " + who()); return; }
    if (ok && (!(x == dbm::toLib(w)) || !(y == x))) { c.fail("the intersection of " + who() + " is [" + dbm::show(x) + "] instead of [" + w.show() + "]"); return; }
  }
}
static const std::vector<D> &matrices(int n, int C, int k) {
  static std::map<std::array<int, 3>, std::vector<D>> cache; auto &v = cache[{n, C, k}];
  if (v.empty()) { Menu m(n, C, k); std::set<std::vector<int>> seen; for (u64 i = 0; i < m.total(); ++i) { D d(n); if (m.make(i, d) && d.close() && seen.insert(d.m).second) v.push_back(d); } }
  return v;
}
static const std::vector<std::pair<D, Set>> &canon2(int C, int M) {
  static std::map<int, std::vector<std::pair<D, Set>>> cache; auto &v = cache[C];
  if (v.empty()) { Raw2 r{C}; for (u64 i = 0; i < r.total(); ++i) { D d = r.make(i); if (d.canonical()) v.emplace_back(d, d.set(space(2, M))); } }
  return v;
}
static const std::vector<std::pair<D, Set>> &canonMenu(int n, int C, int k, int M) {
  static std::map<std::array<int, 3>, std::vector<std::pair<D, Set>>> cache; auto &v = cache[{n, C, k}];
  if (v.empty()) { Menu m(n, C, k); std::set<std::vector<int>> seen; for (u64 i = 0; i < m.total(); ++i) { D d(n); if (!m.make(i, d) || !d.close() || !seen.insert(d.m).second) continue; v.emplace_back(d, d.set(space(n, M))); } }
  return v;
}
// one zone against all others: inclusion, equality, intersection
static void pairs(const std::vector<std::pair<D, Set>> &all, size_t i, int M, bool full, Case &c) {
  c.key("pairs [" + all[i].first.show() + "]"); const Space &sp = space(all[i].first.n, M); auto &a = all[i].second; c.states(); c.nontrivial();
  Zone za = dbm::toLib(all[i].first); size_t ha = hash_value(za);
  for (size_t j = 0; j < all.size(); ++j) {
    auto &b = all[j].second; Zone zb = dbm::toLib(all[j].first); c.transitions(2); c.traces();
    bool in = rs::sub(b, a), eq = i == j; auto who = [&] { return "[" + all[i].first.show() + "] and [" + all[j].first.show() + "]"; };
    if (za.includes(zb) != in) { c.fail("inclusion of " + who() + " is answered " + (in ? "no" : "yes")); return; }
    if ((za == zb) != eq || za.strictEqual(zb) != eq) { c.fail("equality of " + who() + " is answered " + (eq ? "no" : "yes")); return; }
    if (eq && hash_value(zb) != ha) { c.fail("hash of " + who()); return; }
    Set both = rs::both(a, b);
    if (full) {
      std::string w; Zone x = za && zb, y = za; y &= zb; c.transitions(2);
      if (!sameIn(sp, x, both, window(sp, M), 1, w)) { c.fail("the intersection of " + who() + " " + w); return; }
      if (!sameIn(sp, y, both, window(sp, M), 1, w)) { c.fail("the in-place intersection of " + who() + " " + w); return; }
      if (x.isSatisfiable() == rs::empty(both) || y.isSatisfiableNoCanonize() == rs::empty(both)) { c.fail("emptiness of the intersection of " + who()); return; }
    } else {
      Zone x = za && zb; c.transitions(); D w = all[i].first; for (size_t q = 0; q < w.m.size(); ++q) w.m[q] = std::min(w.m[q], all[j].first.m[q]);
      bool ok = w.close(); if (x.isSatisfiableNoCanonize() == rs::empty(both)) { c.fail("emptiness of the intersection of " + who()); return; }
      if (ok == rs::empty(both)) { c.fail("reference mismatch"); return; }
      if (ok && !(x == dbm::toLib(w))) { c.fail("the intersection of " + who() + " is [" + dbm::show(x) + "] instead of [" + w.show() + "]"); return; }
    }
  }
}
// ----- C09 -----
static std::vector<long long> lump(const rs::Pt &p, int Q, const std::vector<int> &K) {   // region of the classical equivalence
  std::vector<long long> keep, r; std::vector<int> who;
  for (size_t x = 0; x < p.size(); ++x) if (p[x] <= K[x] * Q) { keep.push_back(p[x]); who.push_back((int) x); }
  auto cn = rs::canon(keep, Q, Q); r.assign(p.size(), -1); for (size_t i = 0; i < who.size(); ++i) r[who[i]] = cn[i]; return r;
}
static void extra(const D &d, int M, int W, int KM, Case &c) {
  c.key("extrapolate " + d.show()); const Space &sp = space(d.n, M); Set s = d.set(sp); Set win = window(sp, W); c.states(); bool chg = false;
  std::vector<int> K(d.n, 0);
  for (int form = 0;;) {
    Zone z = dbm::toLib(d); z.maxConstraints.assign(K.begin(), K.end()); if (form) { z.M = Bounds{K[0], true}; z.abstractize(); } else z.extrapolate(); c.transitions();
    std::string kt = form ? " (single constant)" : ""; for (int k : K) kt += " " + std::to_string(k);
    Zone y = z; y.canonize(); Set e = dbm::fromLib(y).set(sp); c.traces(sp.size());
    Set e0 = dbm::fromLib(z).set(sp);
    if (e0 != e) { c.fail("canonize changes the extrapolation of [" + d.show() + "] with" + kt); return; }
    if (!rs::sub(s, e)) { c.fail("extrapolation of [" + d.show() + "] with" + kt + " loses " + sp.show(rs::first(rs::minus(s, e)))); return; }
    chg |= s != e;
    { D b = dbm::fromLib(y); int sum = 0; for (int k : K) sum += form ? K[0] : k; for (int x = 0; x <= d.n; ++x) for (int y = 0; y <= d.n; ++y) if (x != y && b.at(x, y) < dbm::INF && (b.at(x, y) >> 1) > sum) { c.fail("extrapolation of [" + d.show() + "] with" + kt + " keeps the bound " + bname(b.at(x, y)) + " between " + nm(x - 1) + " and " + nm(y - 1)); return; } }
    std::set<std::vector<long long>> have; for (size_t k = 0; k < sp.size(); ++k) if (rs::get(s, k)) have.insert(lump(sp.pts[k], sp.Q, K));
    for (size_t k = 0; k < sp.size(); ++k) if (rs::get(e, k) && rs::get(win, k) && !have.count(lump(sp.pts[k], sp.Q, K))) { c.fail("extrapolation of [" + d.show() + "] with maximal constants" + kt + " adds " + sp.show(k) + " which is not equivalent to any of its valuations"); return; }
    if (!form && std::count(K.begin(), K.end(), K[0]) == d.n) { form = 1; continue; }
    form = 0; int i = 0; while (i < d.n && ++K[i] > KM) K[i++] = 0; if (i == d.n) break;
  }
  if (chg) c.nontrivial();
  if (c.idx % 997 == 5) c.sample("[" + d.show() + "]");
}
void mc::Driver::setup(mc::Driver &d) {
  d.assumptions = {"bounds are integers or half-integers; valuations are compared region by region inside the stated window"};
  bool th = d.thorough();
  if (d.prop == "C07") {
    d.statesMean = "zones visited"; d.transMean = "zone operations executed"; d.tracesMean = "resulting sets (or their regions) compared with the region model";
    { static Raw2 r{2}; static auto os = ops(2, 2, 1, true, false); d.add("step-2clk", r.total(), "every canonical non-empty zone over 2 clocks with constants <= 2 (156,816 matrices, the canonical ones kept) x every operation with every argument", [](u64 i, Case &c) { D z = r.make(i); if (z.canonical()) oneStep(z, 1, 9, 4, os, c, ""); }); }
    { static Raw2 r{1}; static auto os = ops(2, 1, 0.5, true, false); d.add("step-2clk-half", r.total(), "the same with half-integer constants {0, 1/2} and differences <= 1/2", [](u64 i, Case &c) { D z = r.make(i); if (z.canonical()) oneStep(z, 0.5, 6, 3, os, c, "in halves: "); }); }
    { static auto os = ops(1, 3, 1, true, false); d.add("seq-1clk", 2 * os.size(), "all sequences of 4 operations on 1 clock from zero / the non-negative reals", [](u64 i, Case &c) {
        int st = i % 2; auto &o = os[i / 2]; c.key(std::string(st ? "1 clock, all: " : "1 clock, zero: ") + o.name); const Space &sp = space(1, 16); Zone z = st ? Zone::top(2) : Zone::zero(2); z.M = Bounds{10, true};
        if (st) z.tighten(-1, 0, Bounds{0, true}); Set s = sp.filter([&](const rs::Pt &p) { return st || p[0] == 0; });
        int sh; onZone(z, o, 1); s = onSet(sp, s, o, 1, sh); c.nontrivial(); if (!o.final) sequences(z, s, 1, 3, 1, 3, 16, 16 - sh, os, (st ? "all: " : "zero: ") + o.name, c); }, 120, 1); }
    int dep = th ? 4 : 3;
    { static auto os = ops(2, 1, 1, true, true); static int D0; D0 = dep; d.add("seq-2clk", 2 * os.size(), "all sequences of " + std::to_string(dep) + " operations on 2 clocks from zero / the non-negative reals, constants <= 1", [](u64 i, Case &c) {
        int st = i % 2; auto &o = os[i / 2]; c.key(std::string(st ? "2 clocks, all: " : "2 clocks, zero: ") + o.name); int M = 10; const Space &sp = space(2, M); Zone z = st ? Zone::top(3) : Zone::zero(3); z.M = Bounds{10, true};
        if (st) { z.tighten(-1, 0, Bounds{0, true}); z.tighten(-1, 1, Bounds{0, true}); } Set s = sp.filter([&](const rs::Pt &p) { return st || (p[0] == 0 && p[1] == 0); });
        int sh; onZone(z, o, 1); if (o.kind == RESET) z.canonize(); s = onSet(sp, s, o, 1, sh); c.nontrivial(); if (!o.final) sequences(z, s, 2, 1, 1, D0 - 1, M, M - sh, os, (st ? "all: " : "zero: ") + o.name, c); }, 600, 1); }
    { int k = th ? 3 : 2; static Menu m(3, 1, k); static auto os = ops(3, 1, 1, true, true); d.add("step-3clk", m.total(), "zones over 3 clocks given by " + std::to_string(k) + " bounds with constants <= 1 x every operation (assignments: every combination of keep / constant / copy)", [](u64 i, Case &c) { D z(3); if (m.make(i, z) && z.close()) oneStep(z, 1, 5, 2, os, c, ""); }, 120, 16); }
    { static Menu m(5, 1, 2); static auto os = ops(5, 1, 1, true, true, 2); d.add("step-5clk", m.total(), "zones over 5 clocks given by 2 bounds with constants <= 1 x every operation (assignments: of up to two clocks), against the matrix model, which step-2clk and step-3clk check against the regions", [](u64 i, Case &c) { D z(5); if (m.make(i, z) && z.close()) oneStepMatrix(z, os, c); }, 120, 16); }
    if (th) { static Menu m(7, 1, 2); static auto os = ops(7, 1, 1, true, true, 1); d.add("step-7clk", m.total(), "the same over 7 clocks (assignments: of one clock)", [](u64 i, Case &c) { D z(7); if (m.make(i, z) && z.close()) oneStepMatrix(z, os, c); }, 120, 16); }
    if (th) { static Menu m(4, 1, 3); static auto os = ops(4, 1, 1, true, true, 2); d.add("step-4clk", m.total(), "the same over 4 clocks, 3 bounds", [](u64 i, Case &c) { D z(4); if (m.make(i, z) && z.close()) oneStepMatrix(z, os, c); }, 120, 16); }
  } else if (d.prop == "C08") {
    d.statesMean = "zones visited"; d.transMean = "queries executed"; d.tracesMean = "answers compared with the region model";
    { static Raw2 r{2}; d.add("queries-2clk", r.total(), "every matrix over 2 clocks with constants <= 2: emptiness, canonical form, hash, sample", [](u64 i, Case &c) { queries(r.make(i), 1, 7, c); }); }
    { static Raw2 r{1}; d.add("queries-2clk-half", r.total(), "the same with half-integer constants", [](u64 i, Case &c) { queries(r.make(i), 0.5, 5, c); }); }
    { int k = th ? 4 : 3; static Menu m(3, 1, k); d.add("queries-3clk", m.total(), "matrices over 3 clocks given by " + std::to_string(k) + " bounds with constants <= 1", [](u64 i, Case &c) { D z(3); if (m.make(i, z)) queries(z, 1, 5, c); }); }
    { int k = th ? 4 : 3; static Menu m(4, 1, k - 1); d.add("queries-4clk", m.total(), "matrices over 4 clocks given by " + std::to_string(k - 1) + " bounds with constants <= 1", [](u64 i, Case &c) { D z(4); if (m.make(i, z)) queries(z, 1, 3, c); }); }
    { static Menu m(6, 1, 2); d.add("queries-6clk", m.total(), "matrices over 6 clocks given by 2 bounds with constants <= 1, against the matrix model", [](u64 i, Case &c) { D z(6); if (m.make(i, z)) queriesMatrix(z, c); }); }
    { static Menu m(9, 1, 2); d.add("queries-9clk", m.total(), "the same over 9 clocks", [](u64 i, Case &c) { D z(9); if (m.make(i, z)) queriesMatrix(z, c); }); }
    { static Menu m(5, 1, th ? 3 : 2); d.add("queries-5clk", m.total(), "the same over 5 clocks, " + std::to_string(m.k) + " bounds", [](u64 i, Case &c) { D z(5); if (m.make(i, z)) queriesMatrix(z, c); }); }
    { static size_t n = matrices(6, 1, 1).size(); d.add("pairs-6clk", n, "all ordered pairs of zones over 6 clocks given by one bound, against the matrix model", [](u64 i, Case &c) { pairsMatrix(matrices(6, 1, 1), i, c); }, 120, 4); }
    if (th) { static size_t n = matrices(4, 1, 2).size(); d.add("pairs-4clk", n, "all ordered pairs of zones over 4 clocks given by two bounds, against the matrix model", [](u64 i, Case &c) { pairsMatrix(matrices(4, 1, 2), i, c); }, 120, 4); }
    { static size_t n = canon2(1, 6).size(); d.add("pairs-2clk", n, "all ordered pairs of canonical zones over 2 clocks, constants <= 1: inclusion, equality, hash, both intersections", [](u64 i, Case &c) { pairs(canon2(1, 6), i, 6, true, c); }, 120, 4); }
    { static size_t n = canon2(2, 8).size(); d.add("pairs-2clk-2", n, "all ordered pairs of canonical zones over 2 clocks, constants <= 2", [](u64 i, Case &c) { pairs(canon2(2, 8), i, 8, false, c); }, 120, 4); }
    { static size_t n = canonMenu(3, 1, 2, 4).size(); d.add("pairs-3clk", n, "all ordered pairs of zones over 3 clocks given by two bounds, constants <= 1", [](u64 i, Case &c) { pairs(canonMenu(3, 1, 2, 4), i, 4, false, c); }, 120, 4); }
  } else {
    d.statesMean = "zones extrapolated"; d.transMean = "extrapolations (zone x maximal constants)"; d.tracesMean = "regions of the result compared with the classical region equivalence";
    { static Raw2 r{3}; d.add("extra-2clk", r.total(), "every canonical zone over 2 clocks with constants <= 3 x all maximal constants <= 3", [](u64 i, Case &c) { D z = r.make(i); if (z.canonical()) extra(z, 8, 6, 3, c); }); }
    { static Menu m(3, 1, 3); static int K = th ? 2 : 1; d.add("extra-3clk", m.total(), "zones over 3 clocks given by 3 bounds with constants <= 1 x all maximal constants <= " + std::to_string(K), [](u64 i, Case &c) { D z(3); if (m.make(i, z) && z.close()) extra(z, 6, 2, K, c); }, 120, 64); }
    { static Menu m(3, 2, th ? 3 : 2); d.add("extra-3clk-2", m.total(), "zones over 3 clocks given by " + std::to_string(m.k) + " bounds with constants <= 2 x all maximal constants <= 2", [](u64 i, Case &c) { D z(3); if (m.make(i, z) && z.close()) extra(z, 8, 3, 2, c); }, 120, 16); }
    { static Menu m(4, 1, th ? 2 : 1); d.add("extra-4clk", m.total(), "zones over 4 clocks given by " + std::to_string(m.k) + " bounds with constants <= 1 x all maximal constants <= 1", [](u64 i, Case &c) { D z(4); if (m.make(i, z) && z.close()) extra(z, 4, 2, 1, c); }, 120, 16); }
  }
}
MC_MAIN("C07")
