// C29 the JSON input format; C33 the printed form of an automaton; C34 complete experiments from input to printed result
#include <boost/log/sinks.hpp>
#include <boost/log/core.hpp>
#include <boost/log/trivial.hpp>
#include <boost/log/expressions.hpp>
#include <boost/make_shared.hpp>
#include <boost/core/null_deleter.hpp>
#include "mc.hh"
#include "conv.hh"
#include "gen.hh"
#include "ta_families.hh"
#include "ota_json_parser.hh"
#include "experiment_runner.hh"
using namespace learnta; using mc::Case; using mc::u64;
struct Dir { std::string p; Dir() { char t[] = "/tmp/c29XXXXXX"; p = mkdtemp(t); } ~Dir() { for (auto f : {"/a.json"}) unlink((p + f).c_str()); rmdir(p.c_str()); } };
// ----- JSON side: an independent description of the file's meaning
struct Iv { bool lc; int lo; bool uc; int hi; };                       // hi < 0: "+)"
static std::string show(const Iv &i) { return std::string(i.lc ? "[" : "(") + std::to_string(i.lo) + "," + (i.hi < 0 ? "+)" : std::to_string(i.hi) + (i.uc ? "]" : ")")); }
struct Tr { int s; char l; Iv iv; bool r; int t; };
struct Doc { std::vector<std::string> names; std::string sigma; std::vector<Tr> tr; int init; std::vector<bool> acc; };
static bool inIv(const Iv &i, int v2) { int l = 2 * i.lo; if (i.lc ? v2 < l : v2 <= l) return false; if (i.hi < 0) return true; return i.uc ? v2 <= 2 * i.hi : v2 < 2 * i.hi; }
static std::string text(const Doc &d, int style) {
  std::string nl = style & 1 ? "" : "\n  ", s = "{" + nl + "\"name\": \"A\"," + nl; auto q = [](const std::string &x) { return "\"" + x + "\""; };
  auto list = [&](const std::vector<std::string> &v) { std::string r = "["; for (auto &x : v) r += (r.size() > 1 ? ", " : "") + q(x); return r + "]"; };
  std::vector<std::string> sg, ac; for (char c : d.sigma) sg.push_back(std::string(1, c)); for (size_t i = 0; i < d.names.size(); ++i) if (d.acc[i]) ac.push_back(d.names[i]);
  std::string tr = "\"tran\": {"; for (size_t i = 0; i < d.tr.size(); ++i) { auto &t = d.tr[i]; tr += (i ? ", " : "") + q(std::to_string(i)) + ": " + list({d.names[t.s], std::string(1, t.l), show(t.iv), t.r ? "r" : "n", d.names[t.t]}); } tr += "}";
  std::vector<std::string> parts{"\"l\": " + list(d.names), "\"sigma\": " + list(sg), tr, "\"init\": " + q(d.names[d.init]), "\"accept\": " + list(ac)};
  if (style & 2) std::reverse(parts.begin(), parts.end()); for (size_t i = 0; i < parts.size(); ++i) s += (i ? "," + nl : "") + parts[i]; return s + "\n}\n";
}
static ref::TA meaning(const Doc &d) {
  ref::TA a; a.nclk = 1; a.init = d.init; a.locs.resize(d.names.size()); for (size_t i = 0; i < d.names.size(); ++i) a.locs[i].acc = d.acc[i];
  for (auto &t : d.tr) { std::vector<ref::Guard> g{{0, t.iv.lc ? ref::GE : ref::GT, t.iv.lo}}; if (t.iv.hi >= 0) g.push_back({0, t.iv.uc ? ref::LE : ref::LT, t.iv.hi}); std::vector<ref::Reset> r; if (t.r) r.push_back({0, false, 0}); a.locs[t.s].out[t.l].push_back({t.t, g, r}); }
  return a;
}
static void json(const Doc &d, int style, Case &c) {
  std::string tx = text(d, style); { std::string k = tx; for (auto &ch : k) if (ch == '\n') ch = ' '; c.key(k); } Dir dir; std::string path = dir.p + "/a.json"; std::ofstream(path) << tx; c.states();
  bool over = false; for (size_t i = 0; i < d.tr.size(); ++i) for (size_t j = 0; j < i; ++j) if (d.tr[i].s == d.tr[j].s && d.tr[i].l == d.tr[j].l) for (int v = 0; v < 20; ++v) over |= inIv(d.tr[i].iv, v) && inIv(d.tr[j].iv, v);
  bool thrown = false; std::optional<OtaJsonParser> p; try { p.emplace(path); } catch (const std::invalid_argument &) { thrown = true; }
  c.transitions(); if (thrown != over) return c.fail(over ? "a nondeterministic automaton is accepted" : "a deterministic automaton is rejected");
  if (over) return; c.nontrivial();
  if (std::string(p->getAlphabet().begin(), p->getAlphabet().end()) != d.sigma) return c.fail("wrong alphabet");
  const auto &t = p->getTarget(); std::string err; auto r = conv::fromLib(t, 1, err); if (!err.empty()) return c.fail(err); if (t.states.size() != d.names.size() || t.initialStates.size() != 1) return c.fail("wrong number of states");
  int mx = 0; for (auto &x : d.tr) mx = std::max({mx, x.iv.lo, x.iv.hi}); if (t.maxConstraints.size() != 1 || t.maxConstraints[0] < mx) return c.fail("the maximal constant is too small");
  ref::Stats st; auto e = ref::equivalent(meaning(d), r, d.sigma, st); c.traces(); if (e.nondet) return c.fail("the automaton read is not deterministic"); if (e.found) return c.fail("the automaton read differs from the file on " + ref::show(e.witness, e.Q) + ": " + ref::show(r));
}
static std::vector<Iv> ivs(int K) { std::vector<Iv> v; for (int lo = 0; lo <= K; ++lo) for (int lc = 0; lc < 2; ++lc) { v.push_back({(bool) lc, lo, false, -1}); for (int hi = lo; hi <= K; ++hi) for (int uc = 0; uc < 2; ++uc) v.push_back({(bool) lc, lo, (bool) uc, hi}); } return v; }
static Doc fromTA(const ref::TA &a, const std::string &al, bool &ok) {
  Doc d; d.sigma = al; d.init = a.init; for (size_t i = 0; i < a.locs.size(); ++i) { d.names.push_back(std::to_string(a.locs.size() - i)); d.acc.push_back(a.locs[i].acc); } ok = a.nclk == 1;
  for (size_t i = 0; i < a.locs.size() && ok; ++i) for (auto &[l, es] : a.locs[i].out) for (auto &e : es) {
    Iv v{true, 0, false, -1}; for (auto &g : e.guard) { if (g.op == ref::GE || g.op == ref::GT) { if (g.c > v.lo || (g.c == v.lo && g.op == ref::GT)) { v.lo = g.c; v.lc = g.op == ref::GE; } } else if (v.hi < 0 || g.c < v.hi || (g.c == v.hi && g.op == ref::LT)) { v.hi = g.c; v.uc = g.op == ref::LE; } }
    for (auto &r : e.resets) if (r.isClock || r.v) ok = false;
    d.tr.push_back({(int) i, l, v, !e.resets.empty(), e.target}); }
  return d;
}
// ----- DOT side: an independent reader of the printed form
struct Rd { std::string err; ref::TA a; std::vector<int> inits; int scale = 1; };
static Rd readDot(const std::string &s, int nclk, int scale) {
  Rd r; r.a.nclk = nclk; r.scale = scale; std::istringstream in(s); std::string ln; bool open = false, closed = false;
  auto attr = [](const std::string &l, const std::string &k, std::string &v) { auto p = l.find(k + "="); if (p == std::string::npos) return false; p += k.size() + 1; if (l[p] == '"') { auto e = l.find('"', p + 1); v = l.substr(p + 1, e - p - 1); } else { auto e = l.find_first_of(",]", p); v = l.substr(p, e - p); } return true; };
  auto items = [](std::string v) { std::vector<std::string> o; if (!v.empty() && v.front() == '{') v = v.substr(1, v.size() - 2); std::istringstream q(v); std::string x; while (std::getline(q, x, ',')) { while (!x.empty() && x[0] == ' ') x.erase(0, 1); if (!x.empty()) o.push_back(x); } return o; };
  while (std::getline(in, ln)) {
    if (ln.find("digraph") != std::string::npos) { open = true; continue; } if (ln.find('}') == 0) { closed = true; continue; } auto p = ln.find("loc"); if (p == std::string::npos) { if (ln.find_first_not_of(" \t") != std::string::npos) r.err = "unexpected line " + ln; continue; } if (!open || closed) { r.err = "line outside the graph"; continue; }
    size_t used; int src = std::stoi(ln.substr(p + 3), &used); auto ar = ln.find("->"); std::string v;
    if (ar == std::string::npos) { if (src != (int) r.a.locs.size()) r.err = "locations not numbered in order"; r.a.locs.emplace_back(); if (!attr(ln, "match", v)) r.err = "no match attribute"; r.a.locs.back().acc = v == "1" || v == "true"; if (!attr(ln, "init", v)) r.err = "no init attribute"; if (v == "1" || v == "true") r.inits.push_back(src); continue; }
    int tgt = std::stoi(ln.substr(ln.find("loc", ar) + 3)); ref::Edge e; e.target = tgt; char lab; if (!attr(ln, "label", v) || v.empty()) { r.err = "no label"; continue; } if (v.size() == 1) lab = v[0]; else lab = 0;
    if (src >= (int) r.a.locs.size() || tgt >= (int) r.a.locs.size()) { r.err = "edge between undeclared locations"; continue; }
    if (attr(ln, "guard", v)) for (auto &x : items(v)) { char op[4]; int cl, k; if (sscanf(x.c_str(), "x%d %3[<>=] %d", &cl, op, &k) != 3) { r.err = "guard " + x; continue; } std::string o = op; e.guard.push_back({cl, o == "<" ? ref::LT : o == "<=" ? ref::LE : o == ">=" ? ref::GE : ref::GT, k * scale}); if (cl >= nclk) r.err = "clock"; }
    if (attr(ln, "reset", v)) for (auto &x : items(v)) { int cl, y; double z; if (sscanf(x.c_str(), "x%d := x%d", &cl, &y) == 2) e.resets.push_back({cl, true, y}); else if (sscanf(x.c_str(), "x%d := %lf", &cl, &z) == 2 && z * scale == std::floor(z * scale)) e.resets.push_back({cl, false, (int) (z * scale)}); else r.err = "reset " + x; }
    r.a.locs[src].out[lab].push_back(e);
  }
  if (!open || !closed) r.err = "incomplete graph"; r.a.init = r.inits.empty() ? -1 : r.inits[0]; return r;
}
static std::string flat(const ref::TA &a) { return ref::show(a); }
static void sortEmpty(ref::TA &a) { for (auto &l : a.locs) for (auto it = l.out.begin(); it != l.out.end();) if (it->second.empty()) it = l.out.erase(it); else ++it; }
static void dot(const ref::TA &a0, int scale, bool eps, Case &c) {
  ref::TA a = a0; if (eps) for (auto &l : a.locs) { auto it = l.out.find('b'); if (it != l.out.end()) { l.out[0] = it->second; l.out.erase(it); } }
  c.key(ref::show(a)); auto t = conv::toLib(a, scale); if (eps && t.states.size() > 1) t.initialStates.push_back(t.states.back()); std::ostringstream o; o << t; c.states(); c.transitions(); c.nontrivial();
  auto r = readDot(o.str(), a.nclk, scale); if (!r.err.empty()) return c.fail("the printed automaton cannot be read: " + r.err + " in " + o.str());
  sortEmpty(a); std::set<int> want; for (auto &s : t.initialStates) for (size_t i = 0; i < t.states.size(); ++i) if (t.states[i] == s) want.insert((int) i); if (std::set<int>(r.inits.begin(), r.inits.end()) != want) return c.fail("wrong initial locations"); r.a.init = a.init; c.traces();
  if (flat(r.a) != flat(a)) return c.fail("the printed automaton is another one: " + flat(r.a));
}
// ----- C34
static void experiment(const ref::TA &target, const std::string &al, int words, bool viaJson, Case &c) {
  c.key(ref::show(target) + " test words " + std::to_string(words)); namespace bl = boost::log; c.states();
  auto out = boost::make_shared<std::ostringstream>(); auto be = boost::make_shared<bl::sinks::text_ostream_backend>(); be->add_stream(out); be->auto_flush(true); using Sink = bl::sinks::synchronous_sink<bl::sinks::text_ostream_backend>; auto sk = boost::make_shared<Sink>(be); sk->set_formatter(bl::expressions::stream << bl::expressions::smessage); 
  std::vector<Alphabet> av(al.begin(), al.end()); TimedAutomaton t;
  if (viaJson) { bool ok; Doc d = fromTA(target, al, ok); if (!ok) return; Dir dir; std::ofstream(dir.p + "/a.json") << text(d, 0); OtaJsonParser p{dir.p + "/a.json"}; t = p.getTarget(); av = p.getAlphabet(); } else t = conv::toLib(target);
  ExperimentRunner run{av, t}; static const double ds[] = {0, 0.5, 1, 1.5, 2.5}; u64 w = words;
  for (int k = 0; k < 2 && words; ++k) { int len = w % 3; w /= 3; std::string s; std::vector<double> d{ds[w % 5]}; w /= 5; for (int i = 0; i < len; ++i) { s += al[w % al.size()]; d.push_back(ds[w / 2 % 5]); w = w / 2 + 7; } run.pushTestWord(TimedWord{s, d}); }
  auto core = bl::core::get(); core->set_filter(bl::trivial::severity >= bl::trivial::info); core->add_sink(sk); core->set_logging_enabled(true);
  std::ostringstream stat; auto *old = std::cout.rdbuf(stat.rdbuf());
  try { run.run(); } catch (...) { std::cout.rdbuf(old); core->remove_sink(sk); core->set_logging_enabled(false); throw; }
  std::cout.rdbuf(old); core->remove_sink(sk); core->set_logging_enabled(false); c.transitions();
  std::string s = out->str(), mark = "The learned DTA is as follows"; auto p = s.rfind(mark); if (p == std::string::npos) return c.fail("no learned automaton is reported: " + s.substr(0, 200));
  auto b = s.find("digraph", p), e = s.find("\n}", b); if (b == std::string::npos || e == std::string::npos) return c.fail("no automaton is printed");
  std::string g = s.substr(b, e + 3 - b); int n = std::max(target.nclk, 8);
  for (int sc = 1; sc <= 64; sc *= 2) { auto r = readDot(g, n, sc); if (!r.err.empty()) { if (sc == 64) return c.fail("the printed automaton cannot be read: " + r.err + " in " + g); continue; }
    ref::TA tt = target; ref::scaleBy(tt, sc); if (r.inits.size() > 1) return c.fail("several initial locations"); int used = 1; for (auto &l : r.a.locs) for (auto &o : l.out) for (auto &x : o.second) { for (auto &y : x.guard) used = std::max(used, y.x + 1); for (auto &y : x.resets) used = std::max({used, y.x + 1, y.isClock ? y.v + 1 : 0}); } r.a.nclk = used;
    ref::Stats st; auto q = ref::equivalent(tt, r.a, al, st); c.traces(); if (q.nondet) return c.fail("the printed result is not deterministic: " + ref::show(r.a)); if (q.found) return c.fail("the printed result differs from the target on " + ref::show(q.witness, q.Q) + ": " + ref::show(r.a) + " RAW " + g); break; }
  c.nontrivial(); if (stat.str().empty()) return c.fail("no statistics are printed");
}
void mc::Driver::setup(mc::Driver &d) {
  bool th = d.thorough();
  if (d.prop == "C29") {
    d.statesMean = "files read"; d.transMean = "verdicts on determinism"; d.tracesMean = "automata read compared exactly with the meaning of the file";
    static auto i3 = ivs(3), i2 = ivs(2), i12 = std::vector<Iv>{{true, 0, false, -1}, {true, 9, true, 10}, {false, 9, false, 12}, {true, 10, false, -1}, {false, 100, true, 123}, {true, 0, false, 10}, {true, 0, true, 0}};
    auto one = [](const Iv &a, bool r, u64 st) { Doc d; d.names = {"1", "2"}; d.sigma = "a"; d.init = st % 2; d.acc = {(st & 2) != 0, (st & 4) != 0}; d.tr = {{d.init, 'a', a, r, 1 - d.init}, {1 - d.init, 'a', {true, 1, true, 1}, false, d.init}}; return d; };
    { static u64 n = i3.size(); d.add("intervals", n * 2 * 8 * 4, "two locations, every interval with constants <= 3 (open, closed, unbounded, empty), reset or not, every initial and accepting set, four layouts", [one](u64 i, Case &c) { u64 st = i % 8, sty = i / 8 % 4, r = i / 32 % 2; json(one(i3[i / 64], r, st), (int) sty, c); }); }
    { static u64 n = i12.size(); d.add("large-constants", n * 2 * 8, "constants with several digits", [one](u64 i, Case &c) { json(one(i12[i / 16], i / 8 % 2, i % 8), 0, c); }); }
    { static u64 n = i2.size(); d.add("pairs", n * n * 4, "two transitions from one location on the same letter, all pairs of intervals with constants <= 2: read exactly, or rejected when they overlap", [](u64 i, Case &c) { Doc d; d.names = {"10", "1", "x y"}; d.sigma = "ba"; d.init = 1; d.acc = {false, false, true}; u64 f = i % 4; i /= 4; d.tr = {{1, 'a', i2[i % n], (bool) (f & 1), 2}, {1, 'a', i2[i / n], (bool) (f & 2), 0}, {0, 'b', {false, 1, false, 2}, true, 1}, {2, 'b', {true, 0, true, 1}, false, 2}}; json(d, (int) f, c); }, 60, 64); }
    { static u64 n = 7; d.add("triples", n * n * n * 8, "three transitions between two locations and letters, seven intervals each", [](u64 i, Case &c) { u64 f = i % 8; i /= 8; Doc d; d.names = {"q0", "q1"}; d.sigma = "ab"; d.init = 0; d.acc = {(f & 1) != 0, true}; d.tr = {{0, 'a', i2[i % n * 3], (f & 2) != 0, 1}, {f & 4 ? 1 : 0, 'a', i2[i / n % n * 4 % i2.size()], false, 0}, {1, 'b', i2[i / n / n * 2], true, 1}}; json(d, 0, c); }, 60, 64); }
    { static std::vector<std::pair<std::string, int>> bad{{"\"sigma\": [\"ab\"]", 0}, {"\"sigma\": [\"\"]", 0}, {"\"sigma\": [\"a\"]", 1}}; d.add("letters", 9, "letters of zero, one and two characters in the alphabet and in a transition", [](u64 i, Case &c) { std::string l[] = {"a", "ab", ""}; std::string s = l[i % 3], t = l[i / 3]; c.key("letters '" + s + "' '" + t + "'"); Dir dir; std::ofstream(dir.p + "/a.json") << "{\"l\": [\"1\"], \"sigma\": [\"" + s + "\"], \"tran\": {\"0\": [\"1\", \"" + t + "\", \"[0,+)\", \"n\", \"1\"]}, \"init\": \"1\", \"accept\": [\"1\"]}"; bool th = false; try { OtaJsonParser p{dir.p + "/a.json"}; } catch (const std::invalid_argument &) { th = true; } c.states(); c.traces(); if (th != (i != 0)) c.fail(th ? "a valid file is rejected" : "a letter that is not one character is accepted"); }); }
    auto fam_ = [&](const fam::Named &f0, u64 cap) { auto f = fam::fit(f0, cap); d.add("ta-" + f.name, f.total, f.space, [f](u64 i, Case &c) { bool ok; Doc x = fromTA(f.make(i), f.alphabet, ok); if (ok) json(x, (int) (i % 4), c); }, 60, 64); };
    u64 k = th ? 80 : 8; fam_(fam::one(false), 4000 * k); fam_(fam::larger(), 4000 * k); fam_(fam::letters2(), 4000 * k); fam_(fam::three(), 4000 * k);
  } else if (d.prop == "C33") {
    d.statesMean = "automata printed"; d.transMean = "texts read back"; d.tracesMean = "automata read back compared part by part";
    auto add = [&](const fam::Named &f0, u64 cap, int scale) { auto f = fam::fit(f0, cap); d.add(f.name + (scale > 1 ? "-scaled" : ""), f.total, f.space + (scale > 1 ? ", assigned constants in 1/" + std::to_string(scale) : ""), [f, scale](u64 i, Case &c) { auto a = f.make(i); if (scale > 1) { for (auto &l : a.locs) for (auto &o : l.out) for (auto &e : o.second) { for (auto &g : e.guard) g.c *= scale; for (auto &r : e.resets) if (!r.isClock) r.v = r.v * (scale / 2) + (int) (i % scale); } } dot(a, scale, f.alphabet.size() > 1 && i % 2, c); }, 60, 256); };
    u64 k = 1000; add(fam::one(true), 5000 * k, 1); add(fam::two(true), 5000 * k, 1); add(fam::letters2(), 5000 * k, 1); add(fam::larger(), 5000 * k, 1); add(fam::three(), 5000 * k, 1); add(fam::tiny3clk(), 5000 * k, 1); add(fam::copies3(), 5000 * k, 1); add(fam::two(true), 5000 * k, 8); add(fam::one(true), 3000 * k, 32); add(fam::withEmptyEntries(fam::letters2()), 3000 * k, 1);
  } else {
    d.statesMean = "experiments"; d.transMean = "experiments run to the end"; d.tracesMean = "printed results compared exactly with the target";
    auto add = [&](const fam::Named &f0, u64 cap, bool js) { auto f = fam::fit(f0, cap); d.add((js ? "json-" : "") + f.name, f.total * 3, f.space + ", without and with two lists of test words" + (js ? ", read from a JSON file" : ""), [f, js](u64 i, Case &c) { u64 w = i % 3; experiment(f.make(i / 3), f.alphabet, w ? (int) (i * 131 % 997 + 1) : 0, js, c); }, 200, 4); };
    u64 k = th ? 40 : 10; add(fam::wrap("split-1clk-2loc", "1 clock, 2 locations, split at 1", fam::Split{1, 2, 1, 1}), 300 * k, true); add(fam::wrap("split-1clk-1loc-c2", "1 clock, 1 location, split at 2", fam::Split{1, 1, 1, 2}), 300, true); add(fam::wrap("split-2clk-1loc", "2 clocks, 1 location, split at 1", fam::Split{2, 1, 1, 1}), 200 * k, false); add(fam::wrap("split-1clk-1loc-2let", "1 clock, 1 location, 2 letters", fam::Split{1, 1, 2, 1}), 150 * k, true);
    { using namespace fam; std::vector<std::vector<ref::Guard>> g{{}, {lt(0, 1)}, {gt(0, 1)}, {ge(0, 1), le(0, 1)}}, g2 = g; g2.push_back({le(1, 1)}); g2.push_back({gt(1, 1)}); std::vector<std::vector<ref::Reset>> r{{}, {zero(0)}, {zero(1)}}; add(fam::wrap("chain-2clk", "acyclic 2-clock targets: three edges in a row, guards on either clock", Chain{2, 3, {g, g2, g2}, {r, r, {{}}}, false}), 200 * k, false); }
  }
}
MC_MAIN("C29")
