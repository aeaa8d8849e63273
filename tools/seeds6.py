import os, importlib.util
_s = importlib.util.spec_from_file_location("seeds3", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE, TA, CHK, LOC = _m.PRE, _m.TA, _m.CHK, _m.LOC
SEEDS = [
 dict(id="renaming-judged-by-first-three-suffixes", property="C26",
  edits=[("include/equivalence.hh", "return std::equal(leftJuxtapositions.begin(), leftJuxtapositions.end(),\n                       rightJuxtapositions.begin(), rightJuxtapositions.end(),", "return std::equal(leftJuxtapositions.begin(), leftJuxtapositions.begin() + std::min<std::size_t>(3, leftJuxtapositions.size()),\n                       rightJuxtapositions.begin(), rightJuxtapositions.begin() + std::min<std::size_t>(3, rightJuxtapositions.size()),")],
  needs="a candidate renaming under which rows agree on the first three suffixes and differ on a later one",
  breaks="rows that a later suffix distinguishes are taken to be equivalent",
  demo=PRE + CHK + r'''
#include "forward_regional_elementary_language.hh"
#include "equivalence.hh"
int main() {
  auto t = ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{"", {0.5}}).getTimedCondition();
  JuxtaposedZoneSet all{TimedConditionSet{t}, t, 0}, none{TimedConditionSet{}, t, 0};
  RenamingRelation r; r.emplace_back(0, 0);
  CHECK(equivalence(t ^ t, {all, all, all, all}, {all, all, all, all}, r));
  CHECK(!equivalence(t ^ t, {all, all, all, all}, {all, all, all, none}, r));
}
'''),
]
