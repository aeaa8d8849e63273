"""The table of properties; `python3 props.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or [], technique=technique))
TECH = "bounded-exhaustive model checking of the real code against an explicit-state reference region-graph model"
TECH2 = "bounded-exhaustive enumeration of inputs on the real code, each judged against an independent point-set / region model"
NA = []

prop("C01", "Learning terminates with an automaton equivalent to the target",
 "For every deterministic timed automaton given as the system under learning, the learner terminates without a crash or failed internal check. The automaton it returns is deterministic and accepts exactly the timed words the target accepts.",
 ["programs", "inputs"], "every deterministic target automaton (clocks, guards, resets, letters, accepting sets)",
 "The tests learn a handful of fixed targets; the claim is over all targets, and the observation-table logic only goes wrong on particular combinations of guards, resets and counterexamples.",
 ["include/learner.hh", "include/observation_table.hh", "src/observation_table.cc", "include/renaming_relation.hh", "include/counterexample_analyzer.hh", "include/equivalence.hh", "include/imprecise_clock_handler.hh"],
 [("learning loop", "include/learner.hh"), ("observation table: close / consistent / exterior-consistent / hypothesis construction", "include/observation_table.hh")],
 "Every target of the listed families is learned by the real learner with the real oracles; the result is compared exactly (region graph, no sampling) with the target. Bounds: <=2 clocks, <=3 locations, constants <=3.")
prop("C02", "Every hypothesis is a well-formed DTA and every counterexample is genuine",
 "Every automaton the learner proposes while learning is a well-formed deterministic timed automaton over the given alphabet. Every counterexample it receives is accepted by exactly one of hypothesis and target, and equivalence is reported only when the languages are equal.",
 ["programs", "histories"], "every learning run, at every equivalence query in it",
 "Intermediate hypotheses are never inspected by the tests, and a wrong one may be repaired by luck later in the few runs they execute.",
 ["include/observation_table.hh", "include/equivalence.hh", "include/timed_automata_equivalence_oracle.hh", "include/internal_transition_maker.hh", "include/external_transition_maker.hh", "include/imprecise_clock_handler.hh"],
 [("hypothesis construction", "include/observation_table.hh"), ("guards of outgoing transitions", "include/internal_transition_maker.hh, include/external_transition_maker.hh")],
 "Each equivalence query of each enumerated run is intercepted and judged with the reference model.")
prop("C10", "Emptiness answers and witnesses of the zone graph are exact",
 "For every timed automaton (nondeterministic, several initial states, copies and constants in assignments), the zone graph yields a witness word if and only if the language is non-empty. Every witness has non-negative delays and is accepted.",
 ["programs"], "every timed automaton",
 "Emptiness is the core of the equivalence oracle; tests use a few automata. State merging, extrapolation and word reconstruction only interact wrongly on particular zone shapes.",
 ["src/ta2za.cc", "include/zone.hh", "include/symbolic_run.hh", "include/zone_automaton.hh"],
 [("zone graph with inclusion merging and extrapolation", "src/ta2za.cc"), ("witness reconstruction", "include/symbolic_run.hh")],
 "Early-stopping and complete constructions are both run on every automaton of the families and compared with region-graph reachability; witnesses are executed with exact integer arithmetic.")
prop("C11", "Intersection accepts exactly the common words",
 "For every two timed automata, their product accepts a timed word if and only if both automata accept it, and is deterministic if both are.",
 ["programs"], "every pair of automata", "Tests check one or two products; clock renumbering, copies between clocks and one-sided letters matter only for particular pairs.",
 ["src/intersection.cc", "include/intersection.hh"], [("product construction", "src/intersection.cc")],
 "All ordered pairs of the listed small families; exact comparison on the triple product region graph.")
prop("C12", "Complement accepts exactly the rejected words",
 "For every deterministic timed automaton and alphabet, the complement accepts a timed word over the alphabet if and only if the automaton rejects it, is deterministic, and leaves the original automaton unchanged.",
 ["programs"], "every deterministic timed automaton and alphabet", "Completing a partial automaton needs the exact negation of all guards; the tests complement a few automata.",
 ["include/timed_automaton.hh", "src/timed_automaton.cc"], [("completion and flipping of acceptance", "include/timed_automaton.hh")],
 "All automata of the listed families; exact comparison on the product region graph.")
prop("C13", "Simplification, merging and copying preserve the language",
 "Every simplification of a deterministic timed automaton (removing unreachable or dead parts, merging locations, zone-based pruning, dropping useless clocks, merging transitions whose guards differ in the bounds of one clock) and deep copying leave the accepted language and determinism unchanged. The maximum constants computed for the clocks cover every clock mentioned by a guard or an assignment and are exactly the largest constants of the guards.",
 ["programs"], "every deterministic timed automaton and every sequence of the simplifications used", "Simplification is applied to every target, complement and result; the tests look at sizes of a few automata, not at languages.",
 ["include/timed_automaton.hh", "src/timed_automaton.cc", "include/neighbor_conditions.hh"], [("simplify / simplifyStrong / simplifyWithZones / mergeAdjacentTransitions / deepCopy", "include/timed_automaton.hh")],
 "Eight simplification pipelines on all automata of the listed families, compared exactly with the input.")

prop("C03", "Equivalence queries are decided exactly with genuine counterexamples",
 "For every target and every hypothesis, the equivalence oracle returns a counterexample if and only if their languages differ. Every counterexample has non-negative delays and is accepted by exactly one of the two. The answers of a history of queries do not influence each other, queries are counted, and the hypothesis is not modified.",
 ["programs", "histories"], "every pair of deterministic timed automata, every sequence of queries", "A learner is only as correct as its oracle; the tests ask it about a few pairs of automata.",
 ["include/timed_automata_equivalence_oracle.hh", "include/equivalence_oracle.hh", "src/intersection.cc", "src/ta2za.cc", "include/symbolic_run.hh"],
 [("intersection with the complement in both directions", "include/timed_automata_equivalence_oracle.hh")],
 "All ordered pairs of the families (up to 2 clocks or 2 locations, assignments to half-integer constants); decided by the reference product region graph.")
prop("C28", "Memoizing, chained and test-based equivalence oracles stay sound",
 "Combining equivalence oracles by memoization or chaining preserves exactness over every history of hypotheses. The oracles based on listed or random words only return genuine counterexamples; the list-based one finds a difference whenever a prefix of a listed word shows one. Query counts are exact.",
 ["histories", "inputs"], "every history of hypotheses, every list of words, every random seed", "Caches only go wrong for particular histories; the random oracle is nondeterministic.",
 ["include/equivalence_oracle_memo.hh", "include/equivalance_oracle_chain.hh", "include/equivalence_oracle_by_test.hh", "include/equivalence_oracle_by_random_test.hh"],
 [("replay of earlier counterexamples", "include/equivalence_oracle_memo.hh"), ("chain", "include/equivalance_oracle_chain.hh")],
 "All targets x all histories of three hypotheses x four combinations; all pairs of words; all seeds up to a bound with the random source replaced by the enumerated seed.")
prop("C04", "Membership answers equal acceptance, whatever was asked before",
 "Executing a deterministic timed automaton step by step (letters and delays, any number of runs) reports acceptance exactly as defined by its semantics, with simultaneous assignments. Membership queries answer exactly whether the word is accepted, independent of earlier queries and of caching; every distinct cached word reaches the system once.",
 ["programs", "inputs", "histories"], "every deterministic automaton, every timed word, every history of queries", "Tests run a few words through a few automata.",
 ["include/timed_automaton_runner.hh", "include/membership_oracle.hh", "include/sul.hh"], [("stepping with clocks and assignments", "include/timed_automaton_runner.hh"), ("cache", "include/membership_oracle.hh")],
 "All automata of the families x all words up to length 3 with delays in half units, every sequence of interface calls up to depth 5-6, all simultaneous assignments of two clocks.")
prop("C05", "Unobservable transitions fire urgently and only when enabled",
 "While time elapses, the runner takes an unobservable transition whose guard has only non-strict lower bounds at the earliest instant at which the guard holds, choosing the earliest among several, and never takes one whose guard does not hold. The remaining delay is spent in the location reached.",
 ["programs", "inputs"], "every automaton with unobservable transitions and every timed word without zero-time cascades", "Only one shipped example uses unobservable transitions and no test covers several clocks, upper bounds or several transitions.",
 ["include/timed_automaton_runner.hh", "include/constraint.hh"], [("urgent firing", "include/timed_automaton_runner.hh"), ("time needed to satisfy a guard", "include/constraint.hh")],
 "All combinations of one or two urgent transitions with 13 guards and 5 assignments x all words of length <= 2 with half-integer delays.")

prop("C07", "Zone operations compute exactly the sets of clock valuations they denote",
 "Letting time elapse, going back in time, resetting, assigning (copies and constants, simultaneously), reverting assignments, unconstraining and tightening a zone yield exactly the set of clock valuations that the operation denotes on the set before it, for every zone and every sequence of operations.",
 ["inputs", "histories"], "every zone and every sequence of zone operations", "A difference-bound matrix has many entries and representations; the unit tests apply single operations to a few zones.",
 ["include/zone.hh", "include/bounds.hh"], [("elapse / reset / applyResets / revertResets / reverseElapse / tighten / unconstrain", "include/zone.hh")],
 "Every canonical zone of two clocks with constants <=2 x every operation, compared region by region with a point-set model; zones of 3 clocks built from 2-3 bounds; all sequences of operations to depth 3-4.", technique=TECH2)
prop("C08", "Zone emptiness, canonical form, inclusion and sampling are exact",
 "A zone is reported unsatisfiable if and only if it denotes no valuation; canonizing keeps the set and makes every bound tight. Equality and inclusion of zones agree with equality and inclusion of the sets, intersection with intersection, equal zones hash equally, and a sampled valuation belongs to the zone.",
 ["inputs"], "every bound matrix and every pair of zones", "Tests look at a few matrices; strictness of bounds and unreachable bounds interact only in particular ones.",
 ["include/zone.hh", "include/bounds.hh"], [("canonize / isSatisfiable / includes / operator&& / sample", "include/zone.hh")],
 "All 156816 bound matrices of two clocks with constants <=2 (also in half units), menus for 3-4 clocks; all ordered pairs of two-clock zones.", technique=TECH2)
prop("C09", "Zone extrapolation and abstraction lose nothing and add only equivalents",
 "Extrapolating a zone with maximum constants keeps every valuation of the zone, and every valuation it adds is indistinguishable, for guards with constants up to the maxima, from one that was in the zone. No bound of an extrapolated zone on a clock or on a difference exceeds what the maxima allow, so no infinite sequence of extrapolated zones avoids inclusion and exploration ends.",
 ["inputs"], "every zone and every vector of maximum constants", "Unsound or too weak extrapolation shows as a wrong verdict or non-termination only for particular automata.",
 ["include/zone.hh"], [("extrapolate / abstractize", "include/zone.hh")],
 "All canonical zones of one, two and three clocks within bounds x all vectors of maxima; compared on regions with the classical equivalence.", technique=TECH2)
prop("C14", "Guard manipulation preserves the meaning of guards",
 "Satisfaction, negation, implication between constraints, bounds, simplification, satisfiability, widening to the unsimplified form, convex hulls, adjacency and merging of guards denote exactly the corresponding set operations on clock valuations.",
 ["inputs"], "every guard, pair of guards and clock valuation", "Guards are conjunctions in any order with redundant and contradictory parts; tests try a few.",
 ["include/constraint.hh"], [("Constraint / guard functions", "include/constraint.hh")],
 "All guards over one clock and over two clocks with at most two conjuncts per clock (constants <=2), all pairs and small sets of them, evaluated on all half-integer points.", technique=TECH2)
prop("C15", "Determinism check and resolution of overlapping transitions are exact",
 "A location or automaton is reported deterministic if and only if no two of its equally labelled transitions are enabled together. Dropping implied transitions and simplifying keep the moves; merging overlapping transitions leaves no overlap and covers the valuations of the merged ones.",
 ["programs", "inputs"], "every set of outgoing transitions of a location", "Needs three or more transitions overlapping in chains; tests have pairs.",
 ["include/timed_automaton.hh", "src/timed_automaton.cc"], [("deterministic / needSplitting / mergeNondeterministicBranching / simplifyTransitions", "src/timed_automaton.cc")],
 "All sets of up to three transitions from a menu of guards, targets and assignments; compared pointwise.", technique=TECH2)
prop("C17", "Compositions of clock assignments act like applying one after the other",
 "Composing two simultaneous clock assignments has the same effect on every clock valuation as applying the second and then the first; completing, cleaning and collapsing assignments keeps their effect, and the precise-clock variants keep exactly the documented clocks.",
 ["inputs"], "every pair of simultaneous assignments", "Copies between clocks make the order matter only for particular pairs.",
 ["include/timed_automaton.hh", "src/timed_automaton.cc"], [("TATransition::Resets composition and helpers", "include/timed_automaton.hh")],
 "All pairs of simultaneous assignments of up to three clocks (copies, integer and fractional constants), evaluated on all points of a grid.", technique=TECH2)

prop("C06", "Symbolic membership queries return exactly the accepted timed words",
 "For every timed condition over a letter sequence, a symbolic membership query returns a set of disjoint conditions whose union is exactly the words of the condition that the system accepts. Repeating queries, in any order, gives the same answer without asking the system again.",
 ["programs", "inputs", "histories"], "every target automaton, every timed condition, every order of queries", "A symbolic query stands for uncountably many words and is decided from finitely many; the tests try a few conditions on one system.",
 ["include/symbolic_membership_oracle.hh", "include/timed_condition_set.hh", "include/elementary_language.hh"], [("query by regions and reduction", "include/symbolic_membership_oracle.hh")],
 "Automata of eight families x all bounded conditions on words of length <= 2, each asked twice; the answer is compared region by region with the acceptance of the reference model.")
prop("C18", "Timed words behave as sequences of letters and delays",
 "Building, appending to, concatenating and splitting timed words preserve the sequence of observable letters and the delays between them, with unobservable letters absorbed by adding up their delays. Equality, hashing and printing agree with that meaning.",
 ["inputs"], "every timed word, with or without unobservable letters, and every split of it", "Tests build a few words; the boundary cases (empty parts, unobservable letters at the ends) are many.",
 ["include/timed_word.hh"], [("TimedWord", "include/timed_word.hh")],
 "All words up to length 3 over two letters and the unobservable one with five delays; all pairs up to length 2.", technique=TECH2)
prop("C19", "Operations on timed conditions compute exactly the delay vectors they denote",
 "Restricting, extending, concatenating, renaming, resetting, intersecting and hulling timed conditions, and the tests for points, simplicity, inclusion, prefixes and suffixes, agree exactly with the corresponding operations on sets of delay vectors.",
 ["inputs"], "every timed condition and every pair of them", "The tests use a few hand-written conditions of the shapes in the papers' examples.",
 ["include/timed_condition.hh", "include/zone.hh", "include/juxtaposed_zone.hh"], [("TimedCondition", "include/timed_condition.hh")],
 "All canonical conditions with up to k bounds for one to three delays, and all pairs of the smaller ones, compared with a point-set model of delay vectors.", technique=TECH2)
prop("C20", "Enumerating and reducing sets of timed conditions is exact",
 "Enumerating a timed condition yields pairwise disjoint simple conditions whose union is the condition. Reducing a set of simple conditions yields pairwise disjoint conditions with the same union, no two of which could be merged into one, for every subset of simple conditions.",
 ["inputs"], "every timed condition and every finite set of simple conditions", "The number of subsets of regions is exponential, tests reduce a couple.",
 ["include/timed_condition.hh", "include/timed_condition_set.hh"], [("enumerate / reduce", "include/timed_condition_set.hh")],
 "Conditions of one to four delays; every subset of simple conditions of bounded size.", technique=TECH2)
prop("C21", "Elementary languages contain, sample, split and combine exactly",
 "An elementary language contains exactly the timed words with its letters whose delays satisfy its condition; its samples belong to it, and constraining, enumerating, concatenating, hulling and comparing elementary languages agree with the sets of timed words.",
 ["inputs"], "every elementary language, word and pair of languages", "Tests check a few languages.",
 ["include/elementary_language.hh"], [("ElementaryLanguage", "include/elementary_language.hh")],
 "All conditions with few bounds on words of up to three letters, all region representatives as words, all pairs of the small ones.", technique=TECH2)
prop("C22", "Forward regional languages are exactly the regions of their words",
 "The forward regional language of a timed word contains it and equals that of another word if and only if both are in the same region. Continuous and discrete successors, prefixes, suffixes and resets of a regional language are the regions of the correspondingly changed words, and equal languages hash equally.",
 ["inputs", "histories"], "every timed word and every sequence of successor operations", "Regional languages are reached by arbitrary sequences of successors; tests check short fixed ones.",
 ["include/forward_regional_elementary_language.hh", "include/fractional_order.hh", "include/elementary_language.hh"], [("ForwardRegionalElementaryLanguage", "include/forward_regional_elementary_language.hh")],
 "All regions of words up to three letters and all sequences of successors up to length 9.", technique=TECH2)
prop("C23", "Backward regional languages are exactly the regions of their words",
 "The backward regional language of a timed word contains it and equals that of another word if and only if both are in the same region seen from the end. Continuous and discrete predecessors are the regions of the correspondingly extended words.",
 ["inputs", "histories"], "every timed word and every sequence of predecessor operations", "Regional languages are reached by arbitrary sequences of predecessors; tests check short fixed ones.",
 ["include/backward_regional_elementary_language.hh", "include/fractional_order.hh"], [("BackwardRegionalElementaryLanguage", "include/backward_regional_elementary_language.hh")],
 "All regions of words up to three letters and all chains of predecessors up to the bound.", technique=TECH2)
prop("C24", "Fractional orders track the order of the fractional parts",
 "A fractional order built from values groups and orders the variables by their fractional parts, and its successor, predecessor, extension and removal operations match the change of that order when time passes forwards or backwards or a variable is added or removed. Equality and hashing agree with the order.",
 ["inputs", "histories"], "every vector of values and sequence of operations", "Tests use short fixed orders.",
 ["include/fractional_order.hh"], [("FractionalOrder", "include/fractional_order.hh")],
 "All vectors over a grid of fractional parts for up to four variables, all operation sequences within the bound.", technique=TECH2)

prop("C25", "Juxtaposing timing constraints with equalities is exact",
 "For every two timed conditions, with or without common variables, and every set of equalities between their clocks, the juxtaposed zone denotes exactly the matching pairs of valuations in tight form. Emptiness, the implied equalities and the projection to the right side are exact, and comparing two sets of juxtaposed conditions (each set disjoint) tells exactly whether they consist of the same ones.",
 ["inputs"], "every pair of conditions or disjoint sets of conditions, every number of shared variables, every set of equalities", "Row comparison rests on it; tests juxtapose a few conditions. Index arithmetic for shared variables and incomplete tightening only show for particular sizes and bounds.",
 ["include/juxtaposed_zone.hh", "include/juxtaposed_zone_set.hh", "include/timed_condition.hh", "include/zone.hh"], [("juxtaposition and renaming constraints", "include/juxtaposed_zone.hh"), ("comparison of sets", "include/juxtaposed_zone_set.hh")],
 "Every pair of enumerated conditions, each juxtaposed twice (the memo is exercised), is compared entry by entry with an independent closure.", technique=TECH2)
prop("C26", "Rows found equivalent really agree on all related words",
 "For every system under learning, every two table prefixes and every set of suffixes: whenever two rows are judged equivalent under a renaming (by any form of the test or by the search for a renaming), the renaming is compatible with the prefixes, and any two words related by it are both accepted or both rejected. Every prefix is found equivalent to itself, rows whose words with equal continuations are always accepted alike are found equivalent, and a found renaming leaves no clock imprecise.",
 ["programs", "inputs"], "every target automaton, pair of prefixes, set of suffixes, renaming", "A wrong merge of two rows gives a wrong hypothesis only for particular fractional orders of clocks; the tests use a few rows.",
 ["include/equivalence.hh", "include/juxtaposed_zone_set.hh", "include/renaming_relation.hh", "include/timed_condition_set.hh"], [("equivalence of rows", "include/equivalence.hh"), ("search for a renaming", "include/equivalence.hh")],
 "Rows are built with the real symbolic oracle for all prefixes and suffixes of the bounded space; each claim is judged by looking for a pair of regions of related words with different acceptance (exact).")
prop("C27", "Renaming relations and the assignments built from them are correct",
 "For every two simple timed conditions and every renaming relation, the queries on the relation (right-unique, full, trivial, imprecise clocks, edges of the compatibility graph) match their definitions. Completing a relation by implied equalities does not change the pairs it relates and leaves exactly one equation for each determined clock. The assignment built from it sets every target clock once to a value allowed by the target, and leads into the target when the relation determines all clocks.",
 ["inputs"], "every pair of simple conditions, every relation between their clocks", "The assignments of every hypothesis come from here; tests look at a few relations.",
 ["include/renaming_relation.hh", "include/equivalence.hh", "include/timed_condition.hh"], [("renaming relation", "include/renaming_relation.hh"), ("compatibility graph", "include/equivalence.hh")],
 "All relations between all pairs of regions within the bounds, compared with definitions evaluated on region matrices.", technique=TECH2)
prop("C30", "Counterexample analysis returns a genuine new distinguishing suffix",
 "For every observation table reached while learning and every counterexample to it, the analysis returns a suffix that distinguishes some word from its image under the morphism used to reduce the counterexample. It is contained in no suffix language already known, and nothing is returned only if no new one exists.",
 ["histories", "programs"], "every learning history and every counterexample to its hypotheses", "Tests analyse two counterexamples. An off-by-one in the search or a wrong split only matters for counterexamples needing several reduction steps.",
 ["include/counterexample_analyzer.hh", "include/recognizable_languages.hh", "include/single_morphism.hh", "include/observation_table.hh"], [("Rivest-Schapire analysis", "include/counterexample_analyzer.hh")],
 "At every hypothesis of every enumerated run, all regions of words up to the bound that are counterexamples are analysed, with no and with one known suffix.")
prop("C31", "The table's recognizable language equals the hypothesis automaton",
 "At every hypothesis of every learning run, every timed word reduces in finitely many steps to a row of the table: each step splits it exactly into a prefix in the domain of a morphism and the rest, with non-negative delays, and maps the prefix into a row. The language so defined agrees with the acceptance of the row reached and with the hypothesis automaton on every timed word.",
 ["histories", "programs", "inputs"], "every learning history, every timed word", "The counterexample analysis assumes that both presentations agree; no test compares them.",
 ["include/recognizable_languages.hh", "include/single_morphism.hh", "include/observation_table.hh", "include/forward_regional_elementary_language.hh", "include/internal_transition_maker.hh", "include/external_transition_maker.hh"], [("splitting and mapping", "include/recognizable_languages.hh"), ("morphism", "include/single_morphism.hh"), ("hypothesis construction", "include/observation_table.hh")],
 "All hypotheses of the enumerated runs x all regions of words up to the bound (no sampling); every reduction step is checked.")
prop("C32", "Learning converges whichever genuine counterexamples are returned",
 "For every target and every sequence of genuine counterexamples an equivalence oracle may choose, the learning loop keeps making well-formed deterministic hypotheses, never gets stuck or fails an internal check, and ends with an automaton equivalent to the target.",
 ["histories", "programs"], "every target, every sequence of counterexamples", "The built-in oracle always answers with the same kind of counterexample, so tests (and C01) see one history per target; other oracles choose others.",
 ["include/observation_table.hh", "include/counterexample_analyzer.hh", "include/recognizable_languages.hh", "include/learner.hh"], [("counterexample handling", "include/observation_table.hh")],
 "For each target, all 64 sequences of three choices among the distinguishing words of the bounded space, then canonical choices until no short word distinguishes, then exact witnesses of the reference model; the result is compared exactly.")

prop("C29", "OTA JSON files are read as exactly the automaton they describe",
"Reading a one-clock automaton in the OTA JSON format yields exactly the described alphabet, locations, initial and accepting sets and transitions: each interval is read with its own open and closed ends, 'r' resets the clock and 'n' does not, and the order and layout of the file do not matter; files with letters that are not single characters are rejected, and a file whose guards overlap on one letter is never turned into an automaton with another language.",
["inputs"], "every JSON file in the documented format", "Tests read a few sample files; an interval end, a location order or an overlap they do not contain decides what is learned.",
["examples/ota_json_parser.hh"], [("OtaJsonParser", "examples/ota_json_parser.hh")],
"Files written for all intervals up to constant 3 (open, closed, empty and unbounded), all pairs of intervals with constants up to 2 on one letter, triples, and automata of the shared families; the parsed target is compared part by part with the document, and its behaviour where guards overlap.")
prop("C33", "A printed automaton denotes the automaton it was printed from",
"Writing a timed automaton to a stream yields a complete DOT graph from which the same automaton can be read back: locations in order with their initial and accepting marks, and every transition once with its label (or the mark of an unobservable one), its source and target, its guard and its assignments (constants up to the precision of the stream).",
["inputs"], "every timed automaton", "The printed graph is the tool's only output, and tests look at none or one of them.",
["include/timed_automaton.hh", "include/constraint.hh"], [("operator<<", "include/timed_automaton.hh")],
"Every automaton of the shared families (one to three clocks, clock copies, fractional constants, unobservable transitions, several initial locations, empty entries) is printed and read back by an independent reader.")
prop("C34", "An experiment ends with a printed automaton equivalent to the target",
"For every deterministic target given to the experiment runner (built in memory or read from an OTA JSON file) and every list of test words pushed before the run, the run ends, reports statistics, and the automaton it prints is deterministic and accepts exactly the target's timed language.",
["inputs", "programs"], "every target and every list of test words", "The whole pipeline (parser, complement, oracles in a chain, learner, printer) is run by hand on examples; no test compares the printed result with the target.",
["examples/experiment_runner.hh", "include/learner.hh", "include/equivalance_oracle_chain.hh"], [("ExperimentRunner::run", "examples/experiment_runner.hh")],
"The log of the run is captured, the printed automaton is read back and compared exactly with the target by the reference region product.")

prop("C16", "Knowledge about imprecise clocks is exactly what time and resets allow",
"When some clocks were given an arbitrary representative value (imprecise clocks), the neighbour conditions kept for the original valuation are exactly the clock regions consistent with the precise clocks: initially every region with the same value interval for each clock and the same differences among precise and among imprecise clocks, then every region that letting time pass or taking an action reaches while the precise clocks stay in the intervals of the original. The relaxed guard is the smallest box containing them all, a clock set to an integer or copied from a precise clock is precise, one set to another constant is not, and after a transition the knowledge restarts from the region the assignments lead to.",
["inputs", "histories"], "every region, set of precise clocks and sequence of time steps, actions and assignments", "One test exercises a few conditions; a region lost or invented makes a guard of the hypothesis too small or too large.",
["include/neighbor_conditions.hh", "include/forward_regional_elementary_language.hh"], [("NeighborConditions", "include/neighbor_conditions.hh")],
"Explicit sets of regions over one to four clocks stepped in parallel with the implementation along every sequence of steps.")
prop("C35", "Guards are relaxed for imprecise clocks without touching anything else",
"Handling imprecise clocks ends, keeps every existing transition unchanged, and adds, for every delay of the original valuation whose transition leaves possible values uncovered and for every location reached this way, a transition to the same target whose guard is exactly the box of all possible values (unbounded above where the original one is), with the assignments of precise clocks kept and imprecise ones fixed; every added transition widens an existing one.",
["programs", "inputs"], "every automaton and entry with imprecise clocks", "Tests see only the automata that happen to be learned; a missing relaxation makes a hypothesis incomplete and a superfluous one changes its language.",
["include/imprecise_clock_handler.hh", "include/neighbor_conditions.hh"], [("ImpreciseClockHandler::run", "include/imprecise_clock_handler.hh")],
"All automata with two locations and one transition per box of two clocks in which two boxes have any target and assignment; all entries; the reference explores the possible regions explicitly.")
prop("C36", "Transitions of the hypothesis realise the table's conditions",
"Each pair of conditions added to a transition maker yields exactly one transition to the given target whose guard is exactly the clock intervals of the source condition; inside the prefix set the only assignment is the new clock to zero, and for jumps every clock related to a source clock (also by implication) is copied from it, a clock with one possible value gets it, every other clock gets a value of the target condition, no clock is assigned twice or to itself, and if every clock is determined the assignment leads into the target region.",
["inputs"], "every set of conditions, targets and renaming relations", "Tests compare a few transitions; which clock is copied or fixed decides the meaning of the hypothesis.",
["include/internal_transition_maker.hh", "include/external_transition_maker.hh", "include/renaming_relation.hh", "include/juxtaposed_zone.hh"], [("InternalTransitionMaker::make", "include/internal_transition_maker.hh"), ("ExternalTransitionMaker::make", "include/external_transition_maker.hh")],
"All pairs of simple conditions over up to four clocks with all consistent right-unique relations; the transition is evaluated on the region of the source.")

prop("C37", "Equivalence queries are exact for hypotheses with unobservable transitions",
"For a target automaton without and a deterministic hypothesis with unobservable transitions, which are taken as soon as their lower bound is reached, the exact equivalence oracle returns a timed word iff the two automata disagree on some word, the returned word is one they disagree on, a repeated query gives the same verdict and the hypothesis is not modified.",
["inputs", "histories"], "every target and every hypothesis whose unobservable transitions are urgent: once one is enabled, one of them stays enabled as time passes", "Whether a query ends the learning is decided by all words at once; tests query a few fixed pairs and hypotheses with unobservable transitions are rare.",
["include/timed_automata_equivalence_oracle.hh", "include/timed_automaton.hh", "include/constraint.hh", "src/intersection.cc", "src/ta2za.cc"], [("ComplementTimedAutomataEquivalenceOracle::findCounterExample", "include/timed_automata_equivalence_oracle.hh"), ("TimedAutomaton::makeComplete", "include/timed_automaton.hh"), ("addUpperBound", "include/constraint.hh")],
"All pairs of small targets and two-location hypotheses with an unobservable transition; the verdict is compared with the exact product region graph in which unobservable transitions are urgent.")

def write():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
              "why_tests_cant": p["why"], "anchors": {"files": p["files"], "state": [], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    from checks import CHECKS
    m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA],
         "notes": "No hooks are needed: the harnesses in /verif/src link /repo's own sources and headers, rebuilt from the working tree on every run."}
    for p in sorted(P, key=lambda p: p["id"]):
        if p["id"] in CHECKS:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
              "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"] or TECH, "level": "model_checking", "level_note": p["note"]})
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
if __name__ == "__main__":
    write()
