From ed6e549d0d75dd3b335df2e05f601c7f68759f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 01/12] fix: inequivalence of rows is directional, do not reuse
 it for the reversed pair

findDeterministicEquivalentRenaming(i, j) may fail although
findDeterministicEquivalentRenaming(j, i) succeeds.  The memo of
distinguished prefixes was looked up in both directions, so a learnable DTA
made the assertion in equivalentWithMemo fail (or, with NDEBUG, silently
treated equivalent rows as different).
---
 include/observation_table.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/observation_table.hh b/include/observation_table.hh
index 4ac54d5..3c465ba 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -141,8 +141,7 @@ namespace learnta {
 
     std::optional<RenamingRelation> equivalentWithMemo(std::size_t i, std::size_t j) {
 #if 1
-      if (this->distinguishedPrefix.find(std::make_pair(i, j)) != this->distinguishedPrefix.end() ||
-          this->distinguishedPrefix.find(std::make_pair(j, i)) != this->distinguishedPrefix.end()) {
+      if (this->distinguishedPrefix.find(std::make_pair(i, j)) != this->distinguishedPrefix.end()) {
         // we already know that they are not equivalent
         assert(!this->equivalent(i, j));
         return std::nullopt;
-- 
2.43.0


From db9218aeec6aa97fa35410fb4026487848e5abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 02/12] fix: respect strict difference bounds when sampling a
 valuation from a zone

---
 include/zone.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 63239db..3a019f1 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -237,14 +237,22 @@ namespace learnta {
         } else {
           double lower = std::max(0.0, -lowerBound.first);
           double upper = upperBound.first;
+          // Whether the value `lower` itself satisfies the lower bounds
+          bool lowerIncluded = lowerBound.second;
           for (std::size_t j = 0; j < i; j++) {
             Bounds tmpLowerBound = this->value(j + 1, i + 1);
             Bounds tmpUpperBound = this->value(i + 1, j + 1);
-            lower = std::max(lower, -tmpLowerBound.first + valuation[j]);
+            const double tmpLower = -tmpLowerBound.first + valuation[j];
+            if (tmpLower > lower) {
+              lower = tmpLower;
+              lowerIncluded = tmpLowerBound.second;
+            } else if (tmpLower == lower) {
+              lowerIncluded = lowerIncluded && tmpLowerBound.second;
+            }
             upper = std::min(upper, tmpUpperBound.first + valuation[j]);
           }
           assert(lower <= upper);
-          if (lowerBound.second) {
+          if (lowerIncluded) {
             valuation[i] = lower;
           } else if (upper - lower > 0.5) {
             valuation[i] = lower + 0.5;
-- 
2.43.0


From 2463d2e2cb0e90a8f71efa1a19c72e9ee919178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 03/12] fix: apply and revert the assignments of a transition
 simultaneously in zones

---
 include/zone.hh | 76 +++++++++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 3a019f1..074bf3b 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -3,7 +3,7 @@
 #include <cmath>
 #include <limits>
 #include <algorithm>
-#include <unordered_map>
+#include <numeric>
 #include <boost/unordered_map.hpp>
 #include <boost/range/adaptor/reversed.hpp>
 
@@ -129,25 +129,46 @@ namespace learnta {
       }
     }
 
-    void applyResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      // We apply renaming first
+    /*!
+     * @brief Represent the reset as "the i-th variable becomes source[i] + offset[i]"
+     *
+     * @note The indices are internal, i.e., 0 is for the constant
+     */
+    [[nodiscard]] std::pair<std::vector<Eigen::Index>, std::vector<double>> assignments(
+            const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) const {
+      std::vector<Eigen::Index> source(value.rows());
+      std::iota(source.begin(), source.end(), 0);
+      std::vector<double> offset(value.rows(), 0);
       for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          this->unconstrain(resetVariable);
-          this->value(resetVariable + 1, std::get<ClockVariables>(updatedVariable) + 1) = Bounds{0.0, true};
-          this->value(std::get<ClockVariables>(updatedVariable) + 1, resetVariable + 1) = Bounds{0.0, true};
-          canonize();
+        if (updatedVariable.index() == 1) {
+          source.at(resetVariable + 1) = std::get<ClockVariables>(updatedVariable) + 1;
+          offset.at(resetVariable + 1) = 0;
+        } else {
+          source.at(resetVariable + 1) = 0;
+          offset.at(resetVariable + 1) = std::get<double>(updatedVariable);
         }
       }
-      // Then, assign a value
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 0) {
-          this->unconstrain(resetVariable);
-          this->value(0, resetVariable + 1) = Bounds(-std::get<double>(updatedVariable), true);
-          this->value(resetVariable + 1, 0) = Bounds(std::get<double>(updatedVariable), true);
-          canonize();
+      return {source, offset};
+    }
+
+    /*!
+     * @brief Make it the strongest postcondition of the reset
+     *
+     * The assignments are simultaneous: the right hand sides refer to the clock variables before the reset.
+     */
+    void applyResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
+      this->canonize();
+      const auto [source, offset] = this->assignments(resets);
+      const auto before = this->value;
+      for (Eigen::Index i = 0; i < value.rows(); ++i) {
+        for (Eigen::Index j = 0; j < value.cols(); ++j) {
+          if (i != j) {
+            const Bounds bound = source.at(i) == source.at(j) ? Bounds{0, true} : before(source.at(i), source.at(j));
+            value(i, j) = Bounds{bound.first + offset.at(i) - offset.at(j), bound.second};
+          }
         }
       }
+      canonize();
     }
 
     /*!
@@ -156,24 +177,17 @@ namespace learnta {
      * In addition to unconstrain the updated variables, we use the renaming information
      */
     void revertResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      std::vector<ClockVariables> resetVariables;
-      resetVariables.reserve(resets.size());
-      std::unordered_map<ClockVariables, ClockVariables> reverseAssignments;
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        resetVariables.push_back(resetVariable);
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          reverseAssignments[std::get<ClockVariables>(updatedVariable)] = resetVariable;
-        }
-      }
-      for (const auto &resetVariable: boost::adaptors::reverse(resetVariables)) {
-        this->unconstrain(resetVariable);
-        auto it = reverseAssignments.find(resetVariable);
-        if (it != reverseAssignments.end()) {
-          this->value(it->first + 1, it->second + 1) = Bounds{0.0, true};
-          this->value(it->second + 1, it->first + 1) = Bounds{0.0, true};
+      const auto [source, offset] = this->assignments(resets);
+      const auto after = this->value;
+      value.fill(Bounds(std::numeric_limits<double>::max(), false));
+      for (Eigen::Index i = 0; i < value.rows(); ++i) {
+        for (Eigen::Index j = 0; j < value.cols(); ++j) {
+          value(source.at(i), source.at(j)) =
+                  std::min(value(source.at(i), source.at(j)),
+                           Bounds{after(i, j).first - offset.at(i) + offset.at(j), after(i, j).second});
         }
-        canonize();
       }
+      canonize();
     }
 
     /*!
-- 
2.43.0


From 7959f8e00d157c42fda2a611f5723fb3dfbf80e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 04/12] fix: extrapolate a clock with the constants of the
 clocks it is copied to

---
 src/ta2za.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ta2za.cc b/src/ta2za.cc
index 0ea33f1..fb3e3a5 100644
--- a/src/ta2za.cc
+++ b/src/ta2za.cc
@@ -25,6 +25,25 @@ namespace learnta {
       for (std::size_t i = 0; i < initialZone.maxConstraints.size(); ++i) {
         initialZone.maxConstraints.at(i) = TA.maxConstraints.at(i);
       }
+      // If x is assigned to y, the constants compared with y are also relevant to x
+      for (bool changed = true; changed;) {
+        changed = false;
+        for (const auto &state: TA.states) {
+          for (const auto &[action, transitions]: state->next) {
+            for (const auto &transition: transitions) {
+              for (const auto &[assigned, value]: transition.resetVars) {
+                if (value.index() == 1) {
+                  auto &source = initialZone.maxConstraints.at(std::get<ClockVariables>(value));
+                  if (source < initialZone.maxConstraints.at(assigned)) {
+                    source = initialZone.maxConstraints.at(assigned);
+                    changed = true;
+                  }
+                }
+              }
+            }
+          }
+        }
+      }
     } else {
       initialZone.M = Bounds(0, true);
     }
-- 
2.43.0


From 4e81533ed39671d4a2c0f5f75c8cf2687082de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 05/12] fix: the time to satisfy a guard respects its upper
 bounds and an empty guard is satisfied at once

---
 include/constraint.hh | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 77f850a..330f111 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -114,7 +114,7 @@ namespace learnta {
         case Order::lt:
         case Order::le:
           // Bounded from above
-          return valuation.at(this->x) <= this->c ? Bounds{0.0, true} :
+          return this->satisfy(valuation) ? Bounds{0.0, true} :
                  Bounds{-std::numeric_limits<double>::infinity(), false};
         case Order::ge:
           // Bounded from below
@@ -362,13 +362,19 @@ namespace learnta {
 
   [[nodiscard]] inline Bounds lowerBoundDurationToSatisfy(const std::vector<Constraint> &guard,
                                                           const std::vector<double> &valuation) {
-    std::vector<Bounds> lowerBoundDurations;
-    lowerBoundDurations.reserve(guard.size());
-    std::transform(guard.begin(), guard.end(), std::back_inserter(lowerBoundDurations), [&](const auto &constraint) {
-      return constraint.lowerBoundDurationToSatisfy(valuation);
-    });
+    Bounds result{0.0, true};
+    for (const auto &constraint: guard) {
+      result = std::min(result, constraint.lowerBoundDurationToSatisfy(valuation));
+    }
+    // The upper bounds must still hold after the duration to satisfy the lower bounds
+    for (const auto &constraint: guard) {
+      const double value = valuation.at(constraint.x) - result.first;
+      if (constraint.isUpperBound() && (!constraint.satisfy(value) || (!result.second && value == constraint.c))) {
+        return Bounds{-std::numeric_limits<double>::infinity(), false};
+      }
+    }
 
-    return *std::min_element(lowerBoundDurations.begin(), lowerBoundDurations.end());
+    return result;
   }
 
   static inline std::ostream &operator<<(std::ostream &os, const std::vector<Constraint> &guards) {
-- 
2.43.0


From e4ace2fc4bb62dcaecf465ea6a4537141f4361e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 06/12] fix: take the earliest of several unobservable
 transitions

---
 include/timed_automaton_runner.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/timed_automaton_runner.hh b/include/timed_automaton_runner.hh
index e42d1ae..8891d54 100644
--- a/include/timed_automaton_runner.hh
+++ b/include/timed_automaton_runner.hh
@@ -125,7 +125,8 @@ namespace learnta {
           minDuration = lowerBoundDurationToSatisfy(unobservableIt->second.front().guard, this->clockValuation);
           candidateTransition = unobservableIt->second.begin();
         } else {
-          candidateTransition = std::min_element(unobservableIt->second.begin(), unobservableIt->second.end(),
+          // The bounds are negated, i.e., the minimum duration is the maximum bound
+          candidateTransition = std::max_element(unobservableIt->second.begin(), unobservableIt->second.end(),
                                                  [&](const auto &a, const auto &b) {
                                                    return lowerBoundDurationToSatisfy(a.guard, this->clockValuation) <
                                                           lowerBoundDurationToSatisfy(b.guard, this->clockValuation);
-- 
2.43.0


From a36f81d1fa2f506ade92b2494c94caca392d2b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 07/12] fix: merging nondeterministic branches leaves no
 overlapping transitions

---
 src/timed_automaton.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/timed_automaton.cc b/src/timed_automaton.cc
index 50afab0..c3603ce 100644
--- a/src/timed_automaton.cc
+++ b/src/timed_automaton.cc
@@ -188,7 +188,10 @@ namespace learnta {
             }
             std::vector<std::vector<Constraint>> guards = {it2->guard, it3->guard};
             it2->guard = unionHull(guards);
-            it3 = transitions.erase(it3);
+            transitions.erase(it3);
+            // The merged guard may overlap with the guards we have already visited
+            it2 = transitions.begin();
+            it3 = std::next(it2);
           } else {
             ++it3;
           }
@@ -246,7 +249,10 @@ namespace learnta {
             }
               it2->guard = unionHull(it2->guard, it3->guard);
 #endif
-            it3 = transitions.erase(it3);
+            transitions.erase(it3);
+            // The merged guard may overlap with the guards we have already visited
+            it2 = transitions.begin();
+            it3 = std::next(it2);
           } else {
             ++it3;
           }
@@ -280,12 +286,18 @@ namespace learnta {
             } else if (!allPrecise2 && allPrecise3) {
               // We use it3 if it precisely captures the guard
               *it2 = *it3;
-              it3 = transitions.erase(it3);
+              transitions.erase(it3);
+              // The chosen guard may overlap with the guards we have already visited
+              it2 = transitions.begin();
+              it3 = std::next(it2);
               continue;
             } else if (allPrecise2 && allPrecise3) {
               // We merge them if both precisely capture the guard
               *it2 = mergeTransitions(*it2, *it3);
-              it3 = transitions.erase(it3);
+              transitions.erase(it3);
+              // The chosen guard may overlap with the guards we have already visited
+              it2 = transitions.begin();
+              it3 = std::next(it2);
               continue;
             }
             bool use3 = false;
@@ -315,7 +327,10 @@ namespace learnta {
               it2->guard = unionHull(it2->guard, it3->guard);
             }
             BOOST_LOG_TRIVIAL(debug) << it2->guard << " " << it2->resetVars << " is generated";
-            it3 = transitions.erase(it3);
+            transitions.erase(it3);
+            // The chosen guard may overlap with the guards we have already visited
+            it2 = transitions.begin();
+            it3 = std::next(it2);
           } else {
             ++it3;
           }
-- 
2.43.0


From 276879b4652d5f271cc05d0474752a913bede157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 08/12] fix: equal zones have the same hash value

---
 include/zone.hh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 074bf3b..826e693 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -469,17 +469,21 @@ namespace learnta {
 
   inline std::size_t hash_value(learnta::Zone const &zone) {
     std::size_t seed = zone.value.array().size();
-    const auto asVector = zone.value.array();
 
     union DI {
       double asD;
       uint64_t asI;
     };
 
-    for (auto it = asVector.data(); it != asVector.data() + asVector.size(); it++) {
-      DI value{};
-      value.asD = it->first;
-      seed ^= it->second + value.asI + 0x9e3779b9 + (seed << 6) + (seed >> 2);
+    // As in the equality, we ignore the diagonal elements and the sign of zero
+    for (Eigen::Index j = 0; j < zone.value.cols(); ++j) {
+      for (Eigen::Index i = 0; i < zone.value.rows(); ++i) {
+        if (i != j) {
+          DI value{};
+          value.asD = zone.value(i, j).first + 0.0;
+          seed ^= zone.value(i, j).second + value.asI + 0x9e3779b9 + (seed << 6) + (seed >> 2);
+        }
+      }
     }
     return seed;
   }
-- 
2.43.0


From dca47ec3054363851948b418c291cf5cd60460d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 09/12] fix: fractional order of backward regional languages
 built from timed words

---
 .../backward_regional_elementary_language.hh  | 11 +++++------
 .../forward_regional_elementary_language.hh   | 19 ++-----------------
 2 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/include/backward_regional_elementary_language.hh b/include/backward_regional_elementary_language.hh
index b69e48a..3d81e65 100644
--- a/include/backward_regional_elementary_language.hh
+++ b/include/backward_regional_elementary_language.hh
@@ -15,7 +15,7 @@ namespace learnta {
   /*!
    * @brief A back regional elementary language
    *
-   * A back regional elementary language is an elementary language \f$(u, \Lambda)\f$ with an order over the fractional parts of \f$\mathbb{T}_{0,0},\mathbb{T}_{0,1},\dots,\mathbb{T}_{0,N}\f$, where \f$\mathbb{T}_{0,i} = \tau_{0} + \tau_{1} \dots \tau_{i}\f$.
+   * A back regional elementary language is an elementary language \f$(u, \Lambda)\f$ with an order over the fractional parts of \f$-\mathbb{T}_{0,0},-\mathbb{T}_{0,1},\dots,-\mathbb{T}_{0,N}\f$ (i.e., the time to the next integer value), where \f$\mathbb{T}_{0,i} = \tau_{0} + \tau_{1} \dots \tau_{i}\f$.
    *
    * @invariant elementary.wordSize() + 1 == fractionalOrder.size()
    */
@@ -37,11 +37,10 @@ namespace learnta {
       fractionalPart.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.front() = timedWord.getDurations().front();
-      fractionalPart.front() = timedWord.getDurations().front() - std::floor(timedWord.getDurations().front());
+      fractionalPart.front() = std::ceil(timedWord.getDurations().front()) - timedWord.getDurations().front();
       for (std::size_t i = 1; i < fractionalPart.size(); ++i) {
         accumulatedDurationFromFront.at(i) = accumulatedDurationFromFront.at(i - 1) + timedWord.getDurations().at(i);
-        fractionalPart.at(i) = accumulatedDurationFromFront.at(i);
-        fractionalPart.at(i) -= std::floor(fractionalPart.at(i));
+        fractionalPart.at(i) = std::ceil(accumulatedDurationFromFront.at(i)) - accumulatedDurationFromFront.at(i);
       }
       accumulatedDurationFromBack.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromBack.back() = timedWord.getDurations().back();
@@ -78,8 +77,8 @@ namespace learnta {
       } else if (this->getTimedCondition().hasSuffix()) {
         // return the continuous prefix
         return std::make_optional(BackwardRegionalElementaryLanguage{
-                {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.predecessorVariables())},
-                this->fractionalOrder.predecessor()});
+                {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.successorVariables())},
+                this->fractionalOrder.successor()});
       } else {
         // TODO: return the discrete suffix
         auto word = this->getWord();
diff --git a/include/forward_regional_elementary_language.hh b/include/forward_regional_elementary_language.hh
index 1d41277..b8ef85f 100644
--- a/include/forward_regional_elementary_language.hh
+++ b/include/forward_regional_elementary_language.hh
@@ -157,23 +157,8 @@ namespace learnta {
       auto suffixDurations = fullWord.getDurations();
       suffixDurations.erase(suffixDurations.begin(), suffixDurations.begin() + prefix.wordSize());
       suffixDurations.front() -= prefixWord.getDurations().back();
-      // Generate the elementary language containing the suffix
-      const auto forward = fromTimedWord(TimedWord{suffixWord, suffixDurations});
-      // Construct the fractional order
-      std::vector<double> suffixDurationsFractional;
-      suffixDurationsFractional.resize(suffixDurations.size());
-      suffixDurationsFractional.front() = suffixDurations.front() - std::floor(suffixDurations.front());
-      for (std::size_t i = 1; i < suffixDurationsFractional.size(); ++i) {
-        suffixDurationsFractional.at(i) = suffixDurationsFractional.at(i - 1) + suffixDurations.at(i);
-        suffixDurationsFractional.at(i) -= std::floor(suffixDurationsFractional.at(i));
-      }
-      assert(std::all_of(suffixDurationsFractional.begin(), suffixDurationsFractional.end(),
-                         [](const double fractional) {
-                           return 0 <= fractional && fractional < 1;
-                         }));
-
-      return BackwardRegionalElementaryLanguage{ElementaryLanguage{forward.getWord(), forward.getTimedCondition()},
-                                                FractionalOrder(suffixDurationsFractional)};
+      // Generate the backward regional elementary language containing the suffix
+      return BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{suffixWord, suffixDurations});
     }
 
     [[nodiscard]] ForwardRegionalElementaryLanguage applyResets(const TATransition::Resets &resets) const {
-- 
2.43.0


From eb8cdbf9bfc8af8c599afb1b35f8e62a9416d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:52 +0000
Subject: [PATCH 10/12] fix: upper bound of urgent unobservable transitions in
 equivalence queries

The upper bound was added to constraints of the form x <= c instead of x >= c.
---
 include/constraint.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 330f111..6007054 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -521,7 +521,7 @@ namespace learnta {
     for (const auto &[clock, constraints]: mapFromClock) {
       // assume that the guard is non-redundant
       if (constraints.size() == 1 && !constraints.front().isUpperBound()) {
-        if (constraints.front().odr == Constraint::Order::le) {
+        if (constraints.front().odr == Constraint::Order::ge) {
           guard.push_back(ConstraintMaker(clock) <= constraints.front().c);
         } else {
           guard.push_back(ConstraintMaker(clock) < constraints.front().c + 1);
-- 
2.43.0


From f7d48e24044d76ec8e47a7b94a69319d9e44f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:52 +0000
Subject: [PATCH 11/12] fix: complement letters without transitions in
 locations with unobservable transitions

No transition to the sink was added, so words stuck there were not in the complement.
---
 include/timed_automaton.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/timed_automaton.hh b/include/timed_automaton.hh
index ea0011a..b0c5cca 100644
--- a/include/timed_automaton.hh
+++ b/include/timed_automaton.hh
@@ -299,10 +299,10 @@ namespace learnta {
             // If the transition is empty, we make a transition to the sink state
             state->next[action].emplace_back();
             state->next.at(action).back().target = this->states.back().get();
-          } else if (state->next.find(action) != state->next.end() && !state->next.at(action).empty()) {
+          } else {
             // Take the union of the guards and complement it to obtain the condition to get stuck
             std::vector<std::vector<Constraint>> disjunctiveGuard = disjunctiveGuardOfUnobservable;
-            disjunctiveGuard.reserve(state->next.at(action).size());
+            disjunctiveGuard.reserve(disjunctiveGuard.size() + state->next[action].size());
             for (const auto &transition: state->next.at(action)) {
               if (transition.guard.empty()) {
                 disjunctiveGuard.clear();
-- 
2.43.0


From ed2035e3ec757dcbf85b3926fd2bdd09d129c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:52 +0000
Subject: [PATCH 12/12] fix: sampling from zone graphs with merged states

A state was visited only once, even if the visiting run covers only a part of the merged zone, and thus a witness
may be missed depending on the order of the transitions.
---
 include/symbolic_run.hh   |  5 +++++
 include/zone_automaton.hh | 27 ++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/symbolic_run.hh b/include/symbolic_run.hh
index e20c47f..b634220 100644
--- a/include/symbolic_run.hh
+++ b/include/symbolic_run.hh
@@ -78,6 +78,11 @@ namespace learnta {
       return this->tightZones.at(i);
     }
 
+    //! @brief Returns the number of the edges in the symbolic run
+    [[nodiscard]] std::size_t size() const {
+      return this->edges.size();
+    }
+
     //! @brief Returns the last state in the symbolic run
     [[nodiscard]] std::shared_ptr<ZAState> back() const {
       return this->states.back();
diff --git a/include/zone_automaton.hh b/include/zone_automaton.hh
index 9b89c2e..3804b84 100644
--- a/include/zone_automaton.hh
+++ b/include/zone_automaton.hh
@@ -27,7 +27,12 @@ namespace learnta {
                      [](const auto &initialState) {
                        return SymbolicRun{initialState};
                      });
-      std::unordered_set<std::shared_ptr<ZAState>> visited = {initialStates.begin(), initialStates.end()};
+      // The zones with which each state has been visited. Due to the state merging in the zone construction, a run to a
+      // state may cover only a part of the zone of the state. Therefore, we may have to visit the same state multiple times.
+      std::unordered_map<std::shared_ptr<ZAState>, std::vector<Zone>> visited;
+      for (const auto &initialState: initialStates) {
+        visited[initialState].push_back(initialState->zone);
+      }
 
       while (!currentStates.empty()) {
         std::vector<SymbolicRun> nextStates;
@@ -44,12 +49,24 @@ namespace learnta {
             for (const auto &edge: edges) {
               auto transition = edge.first;
               auto target = edge.second.lock();
-              if (target && visited.find(target) == visited.end()) {
-                // We have not visited the state
+              if (target) {
                 auto newRun = run;
                 newRun.push_back(transition, static_cast<char>(action), target);
-                nextStates.push_back(newRun);
-                visited.insert(target);
+                auto newZone = newRun.tightZoneAt(newRun.size());
+                if (!newZone.isSatisfiable()) {
+                  continue;
+                }
+                newZone.extrapolate();
+                newZone.canonize();
+                newZone.value.diagonal().fill(Bounds{0, true});
+                auto &visitedZones = visited[target];
+                if (std::none_of(visitedZones.begin(), visitedZones.end(), [&newZone](const auto &visitedZone) {
+                  return visitedZone.includes(newZone);
+                })) {
+                  // We have not visited the state with this zone
+                  nextStates.push_back(newRun);
+                  visitedZones.push_back(newZone);
+                }
               }
             }
           }
-- 
2.43.0

