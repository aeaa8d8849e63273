import os, importlib.util
_s = importlib.util.spec_from_file_location("seeds3", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE, TA, CHK, LOC = _m.PRE, _m.TA, _m.CHK, _m.LOC
SEEDS = [
 dict(id="canonize-first-five", property="C08",
  edits=[("include/zone.hh", "for (int k = 0; k < value.cols(); k++) {\n        close1(k);", "for (int k = 0; k < std::min<int>(value.cols(), 5); k++) {\n        close1(k);")],
  needs="a zone over at least five clocks with a bound that is implied through the fifth clock",
  breaks="canonizing leaves the bound loose",
  demo=PRE + CHK + r'''
#include "zone.hh"
int main() {
  Zone z = Zone::top(6); z.value(1, 5) = Bounds{1, true}; z.value(5, 2) = Bounds{1, true};
  z.canonize(); CHECK((z.value(1, 2) == Bounds{2, true}));
}
'''),
 dict(id="extrapolation-later-maximum", property="C09",
  edits=[("include/zone.hh", "if (value(i + 1, j + 1).first > this->maxConstraints.at(i)) {", "if (value(i + 1, j + 1).first > this->maxConstraints.at(std::max(i, j))) {")],
  needs="a bound on a difference of two clocks whose maxima differ, the clock with the smaller maximum numbered higher",
  breaks="extrapolation adds valuations that guards can tell from those of the zone",
  demo=PRE + CHK + r'''
#include "zone.hh"
int main() {
  Zone z = Zone::top(3); z.value(2, 0) = Bounds{1, true}; z.value(1, 2) = Bounds{3, true}; z.canonize(); z.maxConstraints = {5, 1};
  // x1 <= 1 and x0 - x1 <= 3
  z.extrapolate(); z.canonize(); CHECK((z.value(1, 2) == Bounds{3, true}));
}
'''),
 dict(id="satisfiable-three-clocks", property="C14",
  edits=[("include/constraint.hh", "    for (std::size_t i = 0; i < lowerBounds.size(); ++i) {\n      if (lowerBounds.at(i).first > upperBounds", "    for (std::size_t i = 0; i < std::min<std::size_t>(3, lowerBounds.size()); ++i) {\n      if (lowerBounds.at(i).first > upperBounds")],
  needs="a guard that is contradictory in its fourth clock only",
  breaks="the guard is reported satisfiable",
  demo=PRE + CHK + r'''
int main() { ConstraintMaker x(3); CHECK(!satisfiable({x >= 2, x < 1})); CHECK(satisfiable({x >= 1, x < 2})); }
'''),
 dict(id="weaker-transition-to-a-similar-location", property="C15",
  edits=[("src/timed_automaton.cc", "return *it2 != transition && isWeaker(transition.guard, it2->guard) && transition.target == it2->target;", "return *it2 != transition && isWeaker(transition.guard, it2->guard) && transition.target->isMatch == it2->target->isMatch;")],
  needs="two transitions for one action, one with a weaker guard, to different locations that are both accepting or both rejecting",
  breaks="the transition with the weaker guard is dropped although it leads elsewhere",
  demo=PRE + CHK + LOC + r'''
int main() {
  auto s = std::make_shared<TAState>(false), t = std::make_shared<TAState>(true), u = std::make_shared<TAState>(true); ConstraintMaker x(0);
  edge(*s, 'a', *t, {x <= 1}); edge(*s, 'a', *u, {x <= 2}); s->removeTransitionsWithWeakerGuards(); CHECK(s->next['a'].size() == 2);
  edge(*t, 'a', *u, {x <= 1}); edge(*t, 'a', *u, {x <= 2}); t->removeTransitionsWithWeakerGuards(); CHECK(t->next['a'].size() == 1);
}
'''),
 dict(id="zone-simplification-letters-up-to-z", property="C13",
  edits=[("src/timed_automaton.cc", "for (int action = 0; action < CHAR_MAX; ++action) {", "for (int action = 0; action <= 'z'; ++action) {")],
  needs="an action whose letter comes after 'z', such as ~",
  breaks="its transitions are dropped by the simplification",
  demo=PRE + CHK + LOC + r'''
int main() {
  auto s = std::make_shared<TAState>(false), t = std::make_shared<TAState>(true); ConstraintMaker x(0); edge(*s, '~', *t, {x <= 1}); edge(*s, 'a', *t, {x > 1});
  TimedAutomaton a{{{s, t}, {s}}, {1}}; a.simplifyWithZones();
  CHECK(a.initialStates.size() == 1 && a.initialStates.front()->next['a'].size() == 1); CHECK(a.initialStates.front()->next['~'].size() == 1);
}
'''),
 dict(id="urgency-of-first-and-last-only", property="C37",
  edits=[("src/timed_automaton.cc", "      for (auto &transition: it->second) {\n        addUpperBound(transition.guard);\n      }", "      addUpperBound(it->second.front().guard);\n      addUpperBound(it->second.back().guard);")],
  needs="a location of the hypothesis with at least three unobservable transitions",
  breaks="the ones in the middle may be taken late, so that automata are told apart that agree",
  demo=PRE + CHK + LOC + r'''
int main() {
  auto s = std::make_shared<TAState>(false), t = std::make_shared<TAState>(true); ConstraintMaker x(0), y(1);
  for (int k = 0; k < 3; ++k) edge(*s, UNOBSERVABLE, *t, {x >= 1, y >= k, y <= k});
  s->addUpperBoundForUnobservableTransitions();
  for (auto &e : s->next.at(UNOBSERVABLE)) CHECK(!satisfiable(conjunction(e.guard, {x > 1})));
}
'''),
]
