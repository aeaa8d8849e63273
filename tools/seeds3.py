import os, importlib.util
_s = importlib.util.spec_from_file_location("seeds1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE, TA = _m.PRE, _m.TA
CHK = r'''
#include "timed_automaton.hh"
#include "timed_word.hh"
using namespace learnta;
#define CHECK(c) do { if (!(c)) { std::cout << "FAILED: " #c << std::endl; exit(1); } } while (0)
struct Quiet { Quiet() { boost::log::core::get()->set_logging_enabled(false); } } quiet;
'''
LOC = r'''
using G = std::vector<Constraint>; using R = TATransition::Resets;
static void edge(TAState &s, char c, TAState &t, G g, R r = {}) { s.next[c].emplace_back(&t, r, g); }
'''
SEEDS = [
 dict(id="juxtaposition-memo-key", property="C25",
  edits=[("include/juxtaposed_zone.hh", "std::make_tuple(left, right, commonVariableSize);", "std::make_tuple(left, right, std::min<Eigen::Index>(commonVariableSize, 1));")],
  needs="the same two zones juxtaposed twice in one process, with two different numbers of shared variables, both at least one",
  breaks="the second juxtaposition is answered from the memo entry of the first one and shares the wrong variables",
  demo=PRE + CHK + r'''
#include "juxtaposed_zone.hh"
int main() {
  Zone l = Zone::top(3), r = Zone::top(3); l.tighten(0, -1, Bounds{2, true}); l.tighten(1, -1, Bounds{2, true}); r.tighten(0, -1, Bounds{1, true}); l.canonize(); r.canonize();
  JuxtaposedZone one{l, r, 1}, two{l, r, 2};
  CHECK(one.getNumOfVar() == 3); CHECK(two.getNumOfVar() == 2); CHECK((two.value(1, 0) == Bounds{1, true}));
}
'''),
 dict(id="last-clock-never-known", property="C16",
  edits=[("include/neighbor_conditions.hh", "if (*it > this->original.wordSize())", "if (*it >= this->original.wordSize())")],
  needs="conditions rebuilt while the newest clock is known precisely",
  breaks="the knowledge about the newest clock is dropped when the conditions are rebuilt",
  demo=PRE + CHK + r'''
#include "neighbor_conditions.hh"
int main() {
  NeighborConditions n{ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{"a", {0.25, 0.5}}), std::unordered_set<ClockVariables>{1}};
  auto m = n.reconstruct({0, 1}), k = n.reconstruct({1});
  CHECK(m.impreciseClocks().empty()); CHECK(k.impreciseClocks() == std::vector<ClockVariables>{0});
}
'''),
 dict(id="integer-difference-of-assigned-constants", property="C19",
  edits=[("include/timed_condition.hh", "if (difference == std::floor(difference)) {", "if (difference == 0) {")],
  needs="a transition assigning constants that differ by a positive integer to two clocks, one of them fractional",
  breaks="the difference of the two clocks after the transition is an open interval around the exact value",
  demo=PRE + CHK + r'''
#include "timed_condition.hh"
int main() {
  auto c = TimedCondition::makeExact({0.0}).applyResets(TATransition::Resets{{0, 1.5}, {1, 0.5}}, 2);
  // the first delay is x0 - x1 = 1
  CHECK((c.getUpperBound(0, 0) == Bounds{1, true})); CHECK((c.getLowerBound(0, 0) == Bounds{-1, true}));
}
'''),
 dict(id="second-silent-step-forgets-time", property="C18",
  edits=[("include/timed_word.hh", "          this->durations.back() += durations.at(i + 1);", "          this->durations.back() = durations.at(i) + durations.at(i + 1);")],
  needs="two unobservable actions in a row, with time passing before the first one",
  breaks="the delay before the first of several consecutive unobservable actions is lost",
  demo=PRE + CHK + r'''
int main() {
  std::string w = "a"; w.push_back(UNOBSERVABLE); w.push_back(UNOBSERVABLE); w += "b";
  TimedWord t{w, {1, 2, 3, 4, 5}};
  CHECK(t.getWord() == "ab"); CHECK((t.getDurations() == std::vector<double>{1, 9, 5}));
}
'''),
 dict(id="overlap-with-previous-transition-only", property="C15",
  edits=[("src/timed_automaton.cc", """if (std::any_of(transitions.begin(), it, [&](const TATransition &transition) -> bool {
          return satisfiable(""", """if (it != transitions.begin() && std::any_of(std::prev(it), it, [&](const TATransition &transition) -> bool {
          return satisfiable(""")],
  needs="three transitions for one action of which only the first and the third overlap",
  breaks="the resolution of overlapping transitions compares each transition with its predecessor only",
  demo=PRE + CHK + LOC + r'''
int main() {
  auto s = std::make_shared<TAState>(false), t = std::make_shared<TAState>(true); ConstraintMaker x(0);
  edge(*s, 'a', *t, {x <= 2}); edge(*s, 'a', *s, {x >= 5}); edge(*s, 'a', *s, {x >= 1, x <= 3});
  TimedAutomaton a{{{s, t}, {s}}, {5}};
  CHECK(!a.deterministic());
  s->next['a'].pop_back(); CHECK(a.deterministic());
}
'''),
 dict(id="words-equal-up-to-first-delay", property="C18",
  edits=[("include/timed_word.hh", "return this->word == another.word && this->durations == another.durations;", "return this->word == another.word && std::equal(this->durations.rbegin(), this->durations.rend() - 1, another.durations.rbegin());")],
  needs="two timed words that differ in their first delay only (in a hash table: that share a bucket)",
  breaks="two different timed words compare equal, so a cached membership answer can be given for another word",
  demo=PRE + CHK + r'''
int main() {
  CHECK(!(TimedWord("ab", {0.5, 1, 0}) == TimedWord("ab", {1.5, 1, 0})));
  CHECK(!(TimedWord("", {1}) == TimedWord("", {2}))); CHECK(TimedWord("ab", {0.5, 1, 0}) == TimedWord("ab", {0.5, 1, 0}));
}
'''),
 dict(id="assignments-printed-with-guards-only", property="C33",
  edits=[("include/timed_automaton.hh", "          if (!edge.resetVars.empty()) {", "          if (!edge.guard.empty() && !edge.resetVars.empty()) {")],
  needs="a transition with an assignment but without a guard",
  breaks="the printed automaton lacks the assignments of unguarded transitions",
  demo=PRE + CHK + LOC + r'''
int main() {
  auto s = std::make_shared<TAState>(true); edge(*s, 'a', *s, {}, {{0, 0.0}});
  TimedAutomaton a{{{s}, {s}}, {1}}; std::stringstream out; out << a;
  CHECK(out.str().find("reset=") != std::string::npos); CHECK(out.str().find("guard=") == std::string::npos);
}
'''),
 dict(id="complement-skips-long-gaps", property="C12",
  edits=[("include/timed_automaton.hh", """            state->next.at(action).reserve(complementGuards.size());
            for (const auto &guard: complementGuards) {""", """            state->next.at(action).reserve(complementGuards.size());
            for (const auto &guard: complementGuards) {
              if (guard.size() > 2) {
                continue;
              }""")],
  needs="an action whose transitions leave a gap bounded on two clocks from both sides",
  breaks="the completed automaton, and hence the complement, rejects words through such a gap",
  demo=TA + LOC + r'''
int main() {
  auto s = std::make_shared<TAState>(true); ConstraintMaker x(0), y(1);
  edge(*s, 'a', *s, {x < 1}, {{1, 0.0}}); edge(*s, 'a', *s, {x > 2}); edge(*s, 'a', *s, {x >= 1, x <= 2, y < 1}); edge(*s, 'a', *s, {x >= 1, x <= 2, y > 2});
  TimedAutomaton a{{{s}, {s}}, {2, 2}}; auto c = a.complement({'a'});
  for (auto &d : std::vector<std::vector<double>>{{1.5, 0}, {0.5, 1.25, 0}, {2.5, 0}, {0.5, 0.75, 0}}) {
    std::string w(d.size() - 1, 'a'); CHECK(runWord(a, w, d) != runWord(c, w, d)); }
}
'''),
 dict(id="hull-takes-later-lower-bounds", property="C14",
  edits=[("include/constraint.hh", "          if (initial) {\n            guardsAsBounds", "          if (initial || !upperBound) {\n            guardsAsBounds")],
  needs="a hull of guards of which only a later one bounds a clock from below",
  breaks="the hull of the guards excludes values that the first guard allows",
  demo=PRE + CHK + r'''
#include "constraint.hh"
int main() {
  ConstraintMaker x(0);
  for (auto &c : unionHull({x <= 1}, {x >= 1, x <= 2})) CHECK(c.satisfy(0.5));
}
'''),
 dict(id="dead-loop-of-one-accepting-step", property="C13",
  edits=[("include/timed_automaton.hh", """        if (current->next.empty() || std::all_of(current->next.begin(), current->next.end(), [&](const auto &pair) {
          return std::all_of(""", """        if (current->next.empty() || std::all_of(current->next.begin(), current->next.end(), [&](const auto &pair) {
          return std::any_of(""")],
  needs="a rejecting location with, for every action, one transition to itself and another one that leads on",
  breaks="a location that loops under some guard and leads to acceptance under another one is removed as dead",
  demo=TA + LOC + r'''
int main() {
  auto s = std::make_shared<TAState>(true), t = std::make_shared<TAState>(false); ConstraintMaker x(0);
  edge(*s, 'a', *t, {}, {{0, 0.0}}); edge(*t, 'a', *t, {x < 1}); edge(*t, 'a', *s, {x >= 1});
  TimedAutomaton a{{{s, t}, {s}}, {1}}; TimedAutomaton b; std::unordered_map<TAState *, std::shared_ptr<TAState>> m; a.deepCopy(b, m); b.simplifyStrong();
  for (auto &d : std::vector<std::vector<double>>{{0, 1, 0}, {0, 0.5, 0.5, 0}, {0, 0.5, 0}, {0}}) {
    std::string w(d.size() - 1, 'a'); CHECK(runWord(a, w, d) == runWord(b, w, d)); }
}
'''),
 dict(id="merge-transitions-with-as-many-assignments", property="C13",
  edits=[("include/timed_automaton.hh", "      return this->resetVars == transition.resetVars;\n    }\n\n    [[nodiscard]] TATransition merge", "      return this->resetVars.size() == transition.resetVars.size();\n    }\n\n    [[nodiscard]] TATransition merge")],
  needs="two transitions with adjacent guards and the same target that assign the same number of clocks differently",
  breaks="adjacent transitions with different assignments are merged into one",
  demo=TA + LOC + r'''
int main() {
  auto s = std::make_shared<TAState>(true), t = std::make_shared<TAState>(true); ConstraintMaker x(0);
  edge(*s, 'a', *t, {x < 1}, {{0, 0.0}}); edge(*s, 'a', *t, {x >= 1, x < 2}, {{0, 2.0}}); edge(*t, 'a', *t, {x < 1});
  TimedAutomaton a{{{s, t}, {s}}, {2}}; TimedAutomaton b; std::unordered_map<TAState *, std::shared_ptr<TAState>> m; a.deepCopy(b, m); b = b.mergeAdjacentTransitions();
  CHECK(runWord(a, "aa", {0.5, 0.25, 0})); CHECK(runWord(b, "aa", {0.5, 0.25, 0})); CHECK(!runWord(b, "aa", {1.5, 0.25, 0}));
}
'''),
 dict(id="concatenation-lower-bound-of-second-delay", property="C19",
  edits=[("include/timed_condition.hh", "      result.value.block(0, 1, 1, N).array() += another.zone.value(0, 1);", "      result.value.block(0, 1, 1, N).array() += another.zone.value(0, another.zone.value.cols() > 3 ? 2 : 1);")],
  needs="concatenation with a condition over at least three delays whose first delay has a positive lower bound",
  breaks="the total delay of a concatenation is bounded below as if the first delay of the second part were not there",
  demo=PRE + CHK + r'''
#include "timed_condition.hh"
int main() {
  // the delays of the second part sum up to 2
  auto b = TimedCondition::makeExact({2, 0, 0}).convexHull(TimedCondition::makeExact({2, 2, 0})).convexHull(TimedCondition::makeExact({2, 2, 2}));
  auto c = TimedCondition::makeExact({0}) + b;
  CHECK((c.getLowerBound(0, c.size() - 1) == Bounds{-2, true}));
}
'''),
 dict(id="symbolic-answer-one-region-too-many", property="C06",
  edits=[("include/symbolic_membership_oracle.hh", "        if (convexHull.enumerate().size() == includedLanguages.size()) {", "        if (convexHull.enumerate().size() <= includedLanguages.size() + 1) {")],
  needs="a target that rejects exactly one region inside the hull of the accepted ones",
  breaks="the answer to a symbolic query contains a region the target rejects",
  demo=TA + LOC + r'''
#include "symbolic_membership_oracle.hh"
#include "timed_automaton_runner.hh"
int main() {
  auto s = std::make_shared<TAState>(true); ConstraintMaker x(0); edge(*s, 'a', *s, {x < 1}); edge(*s, 'a', *s, {x > 1});
  TimedAutomaton a{{{s}, {s}}, {1}}; SymbolicMembershipOracle o{std::make_unique<TimedAutomatonRunner>(a)};
  ElementaryLanguage q{"a", TimedCondition(std::vector<double>{0.5, 0.0}).convexHull(TimedCondition(std::vector<double>{1.5, 0.0}))};
  CHECK(q.enumerate().size() == 3);
  std::size_t n = 0; auto r = o.query(q); for (auto &c : r.getConditions()) n += c.enumerate().size();
  CHECK(n == 2);
}
'''),
 dict(id="contradictory-renaming-accepted", property="C26",
  edits=[("include/equivalence.hh", "     if (!leftRightJuxtaposition) {\n       return false;\n     }\n", "")],
  needs="a candidate renaming that contradicts the timing constraints of the two prefixes, with rows that do not show it",
  breaks="two prefixes are declared equivalent by a renaming under which they have no related words at all",
  demo=PRE + CHK + r'''
#include "equivalence.hh"
#include "forward_regional_elementary_language.hh"
int main() {
  using E = ElementaryLanguage; using F = ForwardRegionalElementaryLanguage;
  E p = F::fromTimedWord(TimedWord{"a", {1, 0.5}}), q = F::fromTimedWord(TimedWord{"a", {1.25, 0.5}});
  // x0 - x1 = 1 on the left, strictly between 1 and 2 on the right
  JuxtaposedZone z = p.getTimedCondition() ^ q.getTimedCondition();
  RenamingRelation both, last; both.emplace_back(0, 0); both.emplace_back(1, 1); last.emplace_back(1, 1);
  CHECK(!equivalence(z, {}, {}, both));
  CHECK(equivalence(z, {}, {}, last));
}
'''),
 dict(id="zone-graph-search-skips-silent-steps", property="C37",
  edits=[("include/zone_automaton.hh", "for (int action = 0; action < CHAR_MAX; ++action) {", "for (int action = 1; action < CHAR_MAX; ++action) {")],
  needs="a hypothesis that differs from the target only behind an unobservable transition",
  breaks="the equivalence query misses counterexamples that need an unobservable transition",
  demo=TA + LOC + r'''
#include "timed_automata_equivalence_oracle.hh"
int main() {
  auto s = std::make_shared<TAState>(false), t = std::make_shared<TAState>(true), u = std::make_shared<TAState>(false); ConstraintMaker x(0);
  edge(*s, UNOBSERVABLE, *t, {x >= 1});
  TimedAutomaton h{{{s, t}, {s}}, {1}}, target{{{u}, {u}}, {1}};
  ComplementTimedAutomataEquivalenceOracle o{target, target.complement({'a'}), {'a'}};
  CHECK(runWord(h, "", {1.0})); CHECK(!runWord(target, "", {1.0})); CHECK(o.findCounterExample(h).has_value());
}
'''),
]
