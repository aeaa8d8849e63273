import os, importlib.util
_s = importlib.util.spec_from_file_location("seeds1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE, TA = _m.PRE, _m.TA
CHK = r'''
#include "timed_automaton.hh"
#include "timed_word.hh"
using namespace learnta;
#define CHECK(c) do { if (!(c)) { std::cout << "FAILED: " #c << std::endl; exit(1); } } while (0)
struct Quiet { Quiet() { boost::log::core::get()->set_logging_enabled(false); } } quiet;
'''
SEEDS = [
 dict(id="first-target-condition-for-all", property="C36",
  edits=[("include/external_transition_maker.hh", "          const auto targetCondition = targetConditions.getConditions().at(i);", "          const auto targetCondition = targetConditions.getConditions().front();")],
  needs="two pairs of conditions with the same target location and the same renaming but different target conditions",
  breaks="the second transition assigns the clocks as if it led to the first target condition",
  demo=PRE + CHK + r'''
#include "external_transition_maker.hh"
int main() {
  auto t = std::make_shared<TAState>(true); ExternalTransitionMaker m;
  m.add(t, RenamingRelation{}, TimedCondition(std::vector<double>{1.0}), TimedCondition(std::vector<double>{0.0}));
  m.add(t, RenamingRelation{}, TimedCondition(std::vector<double>{2.0}), TimedCondition(std::vector<double>{3.0}));
  auto v = m.make(); CHECK(v.size() == 2);
  for (auto &x : v) { bool two = false; for (auto &c : x.guard) two |= c.c == 2; double want = two ? 3 : 0; CHECK(x.resetVars.size() == 1 && std::get<double>(x.resetVars[0].second) == want); }
}
'''),
 dict(id="cex-search-stops-at-known-suffix", property="C30",
  edits=[("include/counterexample_analyzer.hh", """          BOOST_LOG_TRIVIAL(debug) << suffixes.at(index + 1) << " is a counterexample but not fresh!!";
""", """          BOOST_LOG_TRIVIAL(debug) << suffixes.at(index + 1) << " is a counterexample but not fresh!!";
          return std::nullopt;
""")],
  needs="a counterexample whose first distinguishing suffix is already in the table while a later one is new",
  breaks="the analysis gives up although a new distinguishing suffix exists",
  demo=PRE + CHK + r'''
#include "counterexample_analyzer.hh"
struct O : MembershipOracle {   // accepts "bba", "ca" with no delays, and "a"
  std::size_t count() const override { return 0; }
  bool answerQuery(const TimedWord &w) override { return w.getWord() == "cca" || w.getWord() == "a"; }
};
int main() {
  // e is the only prefix; reading c or a at time 0 leads back to e
  auto e = ForwardRegionalElementaryLanguage{}, c = e.successor('c'), a = e.successor('a');
  RecognizableLanguage h{{e}, {}, {SingleMorphism{c, e, RenamingRelation{}}, SingleMorphism{a, e, RenamingRelation{}}}};
  O o; TimedWord w{"cca", {0, 0, 0, 0}};   // accepted: cca, not ca, a accepted, empty not
  auto r = analyzeCEX(w, o, h, {});
  CHECK(r);
  std::vector<BackwardRegionalElementaryLanguage> known{BackwardRegionalElementaryLanguage::fromTimedWord(*r)};
  auto s = analyzeCEX(w, o, h, known);
  CHECK(s); CHECK(!(*s == *r));
}
'''),
]
