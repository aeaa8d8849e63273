import os, importlib.util
_s = importlib.util.spec_from_file_location("seeds3", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE, TA, CHK, LOC = _m.PRE, _m.TA, _m.CHK, _m.LOC
SEEDS = [
 dict(id="sample-at-open-end", property="C08",
  edits=[("include/zone.hh", "} else if (upper - lower > 0.5) {", "} else if (upper - lower >= 0.5) {")],
  needs="a zone whose second clock, once the first is fixed at a half, is left with an open interval of length one half",
  breaks="the sampled valuation lies on the excluded end of the interval",
  demo=PRE + CHK + r'''
#include "zone.hh"
int main() {
  Zone z = Zone::top(3); z.tighten(0, -1, Bounds{1, false}); z.tighten(-1, 0, Bounds{0, false});
  z.tighten(-1, 1, Bounds{-1, false}); z.tighten(1, 0, Bounds{1, false}); z.canonize();
  auto v = z.sample(); CHECK(v.size() == 2);
  CHECK(v[0] > 0 && v[0] < 1 && v[1] > 1 && v[1] - v[0] < 1);
}
'''),
 dict(id="one-handled-target-per-condition", property="C35",
  edits=[("include/imprecise_clock_handler.hh", "const auto hash = boost::hash_value(*impreciseNeighbors.begin());", "const auto hash = impreciseNeighbors.begin()->second.hash_value();")],
  needs="two locations that are entered with the same imprecise clocks and the same conditions",
  breaks="the guards of the second location are not relaxed",
  demo=PRE + CHK + LOC + r'''
#include "imprecise_clock_handler.hh"
int main() {
  auto s = std::make_shared<TAState>(false), t = std::make_shared<TAState>(false), u = std::make_shared<TAState>(true); ConstraintMaker x(0), y(1);
  G g{x > 0, x < 1, y > 0, y < 1}; R r{{0, 0.0}, {1, 0.0}};
  edge(*s, 'a', *u, g, r); edge(*t, 'a', *u, g, r); edge(*u, 'b', *u, {x >= 0, y >= 0});
  auto f = ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{"a", {0.5, 0.25}}); RenamingRelation n; n.emplace_back(0, 0);
  ImpreciseClockHandler h; h.push(s.get(), n, f); h.push(t.get(), n, f); h.run();
  CHECK(s->next['a'].size() > 1); CHECK(t->next['a'].size() == s->next['a'].size());
}
'''),
 dict(id="fraction-keeps-clock-precise", property="C16",
  edits=[("include/neighbor_conditions.hh", "          return reset.first == preciseClock;\n", "          return reset.first == preciseClock && reset.second.index() == 1;\n")],
  needs="a transition that assigns a fractional constant to a clock that was precise",
  breaks="the clock is still taken to be precise after the transition",
  demo=PRE + CHK + LOC + r'''
#include "neighbor_conditions.hh"
int main() {
  auto s = std::make_shared<TAState>(false); ConstraintMaker x(0), y(1); edge(*s, 'a', *s, {x <= 1, y <= 1}, {{0, 0.5}, {1, 0.0}});
  auto p = NeighborConditions::preciseClocksAfterReset({0, 1}, s->next['a'].front());
  CHECK(p == std::unordered_set<ClockVariables>{1});
}
'''),
 dict(id="close-fractional-parts-are-equal", property="C24",
  edits=[("include/fractional_order.hh", "if (currentFractionalPart == fractionalPart) {", "if (fractionalPart - currentFractionalPart < 0.1) {")],
  needs="a word of many letters whose accumulated delays have fractional parts less than a tenth apart",
  breaks="two different fractional parts are put into one class",
  demo=PRE + CHK + r'''
#include "fractional_order.hh"
int main() { CHECK(!(FractionalOrder{{0.5, 0.5625}} == FractionalOrder{{0.5, 0.5}})); CHECK((FractionalOrder{{0.5, 0.5625}} == FractionalOrder{{0.25, 0.75}})); }
'''),
 dict(id="membership-compares-word-lengths", property="C21",
  edits=[("include/elementary_language.hh", "if (testedWord.getWord() != this->getWord()) {", "if (testedWord.wordSize() != this->wordSize()) {")],
  needs="a timed word with other letters and delays that satisfy the condition",
  breaks="the elementary language contains words with other letters",
  demo=PRE + CHK + r'''
#include "forward_regional_elementary_language.hh"
int main() {
  auto f = ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{"ab", {0.5, 0, 1}});
  CHECK(f.contains(TimedWord{"ab", {0.25, 0, 1}})); CHECK(!f.contains(TimedWord{"aa", {0.25, 0, 1}}));
}
'''),
 dict(id="known-suffix-by-letters", property="C30",
  edits=[("include/counterexample_analyzer.hh", "return !suffix.contains(suffixes.at(index + 1));", "return suffix.getWord() != suffixes.at(index + 1).getWord();")],
  needs="a suffix in the table with the letters of the only distinguishing suffix and other delays",
  breaks="the analysis does not return the distinguishing suffix although it is new",
  demo=PRE + CHK + r'''
#include "counterexample_analyzer.hh"
struct O : MembershipOracle {
  std::size_t count() const override { return 0; }
  bool answerQuery(const TimedWord &w) override { return w.getWord() == "cca"; }
};
int main() {
  // e is the only prefix; reading c or a at time 0 leads back to e
  auto e = ForwardRegionalElementaryLanguage{}, c = e.successor('c'), a = e.successor('a');
  RecognizableLanguage h{{e}, {}, {SingleMorphism{c, e, RenamingRelation{}}, SingleMorphism{a, e, RenamingRelation{}}}};
  O o; TimedWord w{"cca", {0, 0, 0, 0}};
  auto r = analyzeCEX(w, o, h, {}); CHECK(r);
  auto d = r->getDurations(); for (auto &x : d) x += 1;
  auto s = analyzeCEX(w, o, h, {BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{r->getWord(), d})});
  CHECK(s); CHECK(*s == *r);
}
'''),
]
