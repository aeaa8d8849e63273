PRE = r'''
#include <boost/log/core.hpp>
#include <iostream>
#include <sstream>
#include <cstdio>
#include <cstdlib>
'''
TA = PRE + r'''
#include "timed_automaton.hh"
#include "timed_automaton_runner.hh"
#include "timed_word.hh"
using namespace learnta;
static bool runWord(const TimedAutomaton& a, const std::string& w, const std::vector<double>& d) {
  TimedAutomatonRunner r{a}; r.pre(); bool res = r.step(d[0]);
  for (std::size_t i = 0; i < w.size(); ++i) { r.step(w[i]); res = r.step(d[i + 1]); }
  r.post(); return res;
}
#define CHECK(c) do { if (!(c)) { std::cout << "FAILED: " #c << std::endl; exit(1); } } while (0)
struct Quiet { Quiet() { boost::log::core::get()->set_logging_enabled(false); } } quiet;
static std::shared_ptr<TAState> loc(TimedAutomaton& a, bool acc) { a.states.push_back(std::make_shared<TAState>(acc)); return a.states.back(); }
'''
SEEDS = [
 dict(id="product-copy-shift", property="C11",
  edits=[("src/intersection.cc", """        v.first += in1.clockSize();
        if (v.second.index() == 1) {
          std::get<ClockVariables>(v.second) += in1.clockSize();
        }
      });

      // concat constraints
      transition.guard.reserve(e1.guard.size() + e2.guard.size());
      transition.guard.insert(transition.guard.end(), e1.guard.begin(),
                              e1.guard.end());
      transition.guard.insert(transition.guard.end(), e2.guard.begin(),
                              e2.guard.end());
      std::for_each(transition.guard.begin() + e1.guard.size(),
                    transition.guard.end(),
                    [&](Constraint &guard) { guard.x += in1.clockSize(); });

      toIState[std::make_pair(s1, s2)]->next[c].push_back(std::move(transition));
    };

    TATransition emptyTransition;
    // make edges
    for (auto s1: in1.states) {""",
"""        if (v.second.index() == 1 && std::get<ClockVariables>(v.second) <= v.first) {
          std::get<ClockVariables>(v.second) += in1.clockSize();
        }
        v.first += in1.clockSize();
      });

      // concat constraints
      transition.guard.reserve(e1.guard.size() + e2.guard.size());
      transition.guard.insert(transition.guard.end(), e1.guard.begin(),
                              e1.guard.end());
      transition.guard.insert(transition.guard.end(), e2.guard.begin(),
                              e2.guard.end());
      std::for_each(transition.guard.begin() + e1.guard.size(),
                    transition.guard.end(),
                    [&](Constraint &guard) { guard.x += in1.clockSize(); });

      toIState[std::make_pair(s1, s2)]->next[c].push_back(std::move(transition));
    };

    TATransition emptyTransition;
    // make edges
    for (auto s1: in1.states) {""")],
  needs="the second automaton copies a higher-numbered clock to a lower-numbered one and the value matters afterwards",
  breaks="the copied clock of the second automaton is not renumbered in the product, so the product reads a clock of the first automaton",
  demo=TA + r'''
#include "intersection.hh"
int main() {
  TimedAutomaton x; auto p = loc(x, true); x.initialStates = {p}; x.maxConstraints = {1};
  p->next['a'].emplace_back(p.get(), TATransition::Resets{{0, 0.0}}, std::vector<Constraint>{});
  TimedAutomaton y; auto q = loc(y, false), r = loc(y, false), s = loc(y, true); y.initialStates = {q}; y.maxConstraints = {3, 3};
  q->next['a'].emplace_back(r.get(), TATransition::Resets{{0, 0.0}}, std::vector<Constraint>{});
  r->next['a'].emplace_back(r.get(), TATransition::Resets{{0, ClockVariables(1)}}, std::vector<Constraint>{ConstraintMaker(0) < 1});
  r->next['b'].emplace_back(s.get(), TATransition::Resets{}, std::vector<Constraint>{ConstraintMaker(0) >= 2});
  p->next['b'].emplace_back(p.get(), TATransition::Resets{}, std::vector<Constraint>{});
  TimedAutomaton out; boost::unordered_map<std::pair<TAState*, TAState*>, std::shared_ptr<TAState>> m;
  intersectionTA(x, y, out, m);
  for (double d0 : {0.5, 1.5}) for (double d1 : {0.0, 0.5}) for (double d2 : {0.0, 0.5, 1.0, 2.0}) {
    std::vector<double> d = {d0, d1, d2, 0};
    CHECK(runWord(out, "aab", d) == (runWord(x, "aab", d) && runWord(y, "aab", d)));
  }
}
'''),
 dict(id="runner-sequential-assignments", property="C04",
  edits=[("include/timed_automaton_runner.hh", "valuation.at(resetVariable) = oldValuation.at(std::get<ClockVariables>(targetVariable));",
          "valuation.at(resetVariable) = valuation.at(std::get<ClockVariables>(targetVariable));")],
  needs="one transition that assigns a clock and copies that same clock's old value to another clock",
  breaks="assignments of a transition are executed one after the other instead of simultaneously",
  demo=TA + r'''
int main() {
  TimedAutomaton a; auto p = loc(a, false), q = loc(a, false), r = loc(a, true); a.initialStates = {p}; a.maxConstraints = {3, 3};
  p->next['a'].emplace_back(p.get(), TATransition::Resets{{1, 0.0}}, std::vector<Constraint>{});
  p->next['b'].emplace_back(q.get(), TATransition::Resets{{0, ClockVariables(1)}, {1, ClockVariables(0)}}, std::vector<Constraint>{});
  q->next['a'].emplace_back(r.get(), TATransition::Resets{}, std::vector<Constraint>{ConstraintMaker(1) >= 2, ConstraintMaker(0) < 2});
  CHECK(runWord(a, "aba", {1.5, 0.5, 0, 0}));
  CHECK(!runWord(a, "aba", {0.5, 0.5, 0, 0}));
}
'''),
 dict(id="urgent-at-end-of-delay", property="C05",
  edits=[("include/timed_automaton_runner.hh", "minDuration.first <= 0 && Bounds{-duration, true} <= minDuration)", "minDuration.first <= 0 && Bounds{-duration, true} < minDuration)")],
  needs="a delay that ends exactly at the instant at which an unobservable transition becomes enabled",
  breaks="the urgent transition is not taken although its guard holds at the end of the delay",
  demo=TA + r'''
int main() {
  TimedAutomaton a; auto p = loc(a, false), q = loc(a, true); a.initialStates = {p}; a.maxConstraints = {2};
  p->next[UNOBSERVABLE].emplace_back(q.get(), TATransition::Resets{}, std::vector<Constraint>{ConstraintMaker(0) >= 2});
  CHECK(runWord(a, "", {2.5}));
  CHECK(!runWord(a, "", {1.5}));
  CHECK(runWord(a, "", {2.0}));
}
'''),
 dict(id="unused-clock-still-copied", property="C13",
  edits=[("include/timed_automaton.hh", """              if (newValue.index() == 1) {
                usedClockVariables.insert(std::get<ClockVariables>(newValue));
              }
            }
          }
        }
      }

      // Construct a map""", """            }
          }
        }
      }
      for (const auto &state: this->states) {
        for (const auto &[action, transitions]: state->next) {
          for (const auto &transition: transitions) {
            for (const auto &[assignedVar, newValue]: transition.resetVars) {
              // A clock copied to a clock that is never used is useless, too
              if (newValue.index() == 1 && usedClockVariables.find(assignedVar) != usedClockVariables.end()) {
                usedClockVariables.insert(std::get<ClockVariables>(newValue));
              }
            }
          }
        }
      }

      // Construct a map""")],
  needs="a chain of copies y := z, x := y where only x is compared, visited in an order that reaches y := z before y is known to be used",
  breaks="a clock whose value is still needed through a chain of copies is dropped",
  demo=TA + r'''
int main() {
  // z (clock 2) -> y (clock 1) -> x (clock 0); only x is compared
  for (int order = 0; order < 2; ++order) {
    TimedAutomaton a; auto p = loc(a, false), q = loc(a, false), r = loc(a, false), s = loc(a, true);
    p->next['a'].emplace_back(q.get(), TATransition::Resets{{0, 0.0}, {1, 0.0}}, std::vector<Constraint>{});
    q->next['a'].emplace_back(r.get(), TATransition::Resets{{1, ClockVariables(2)}, {0, 0.0}}, std::vector<Constraint>{});
    r->next['a'].emplace_back(r.get(), TATransition::Resets{{0, ClockVariables(1)}}, std::vector<Constraint>{});
    r->next['b'].emplace_back(s.get(), TATransition::Resets{}, std::vector<Constraint>{ConstraintMaker(0) >= 2});
    a.initialStates = {p}; a.maxConstraints = {2, 2, 2};
    if (order) std::reverse(a.states.begin(), a.states.end());
    TimedAutomaton b; std::unordered_map<TAState*, std::shared_ptr<TAState>> m; a.deepCopy(b, m);
    b.removeUnusedClockVariables();
    for (double d : {0.5, 1.0, 2.0}) { std::vector<double> ds = {d, d, 0, 0, 0}; CHECK(runWord(a, "aaab", ds) == runWord(b, "aaab", ds)); }
  }
}
'''),
 dict(id="extrapolation-column-maximum", property="C09",
  edits=[("include/zone.hh", "} else if (-value(0, j + 1).first > this->maxConstraints.at(j)) {", "} else if (-value(0, j + 1).first > this->maxConstraints.at(i)) {")],
  needs="two clocks with different maximum constants and a zone in which the clock with the larger maximum lies between the two maxima",
  breaks="a difference bound is dropped although both clocks are still compared with larger constants, so unreachable valuations become reachable",
  demo=PRE + r'''
#include "zone.hh"
using namespace learnta;
int main() {
  // x0 = 3 and x1 in [2, 3] with the maxima 1 (x0) and 5 (x1): x1's constraints must not change what guards up to 5 see
  Zone z = Zone::zero(3);
  z.maxConstraints = {5, 1}; z.M = Bounds{5, true};
  // x0 - x1 <= 1 , both between 2 and 4
  Zone y = Zone::top(3); y.maxConstraints = {1, 5};
  y.tighten(0, -1, Bounds{1, true}); y.tighten(-1, 0, Bounds{0, true});
  y.tighten(1, -1, Bounds{4, true}); y.tighten(-1, 1, Bounds{-2, true});
  y.tighten(0, 1, Bounds{-2, true}); y.tighten(1, 0, Bounds{2, true});
  y.canonize();
  Zone before = y; y.extrapolate(); y.canonize();
  // x1 - x0 == 2 and x0 <= 1: guards on x0 up to 1 and x1 up to 5 can tell x0 = 1, x1 = 2 from the zone
  Zone probe = Zone::top(3);
  probe.tighten(0, -1, Bounds{1, true}); probe.tighten(-1, 0, Bounds{-1, true});
  probe.tighten(1, -1, Bounds{2, true}); probe.tighten(-1, 1, Bounds{-2, true});
  probe.canonize();
  const bool b = static_cast<bool>(before && probe), a = static_cast<bool>(y && probe);
  std::cout << b << a << std::endl;
  return a == b ? 0 : 1;
}
'''),
 dict(id="composition-order", property="C17",
  edits=[("include/timed_automaton.hh", """        auto it = rightMap.find(midVar);
        if (it == rightMap.end()) {
          result.emplace_back(key, value);
        } else {""", """        auto it = rightMap.find(midVar);
        if (it == rightMap.end() || leftMap.find(midVar) != leftMap.end()) {
          result.emplace_back(key, value);
        } else {""")],
  needs="an assignment that copies a clock which it also overwrites, composed with one that assigns the copied clock",
  breaks="the composition uses the old value of the copied clock instead of the value given by the other assignment",
  demo=TA + r'''
int main() {
  const TATransition::Resets left = {{0, ClockVariables(1)}, {1, 0.0}}, right = {{1, 3.0}};
  const std::vector<double> v = {0.5, 1.5};
  CHECK(TimedAutomatonRunner::applyReset(v, composition(left, right)) == TimedAutomatonRunner::applyReset(TimedAutomatonRunner::applyReset(v, right), left));
}
'''),
]
