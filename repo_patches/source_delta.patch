From cf0dadd79762c1c7be9e6a1eae95a8c591caf5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 01/16] fix: intersection of intervals with equal lower end
 points keeps the open one

Bounds compare false < true in the second component, so std::max over the
lower bounds picked the closed end point whenever both lower end points were
equal, e.g. (1,2) && [1,2] became [1,2).
---
 libmonaa/interval.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index b9142e2..2a4c53e 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -98,6 +98,10 @@ struct Interval {
 inline static Interval operator&&(const Interval &left, const Interval &right) {
   Interval ret = Interval{std::max(left.lowerBound, right.lowerBound),
                           std::min(left.upperBound, right.upperBound)};
+  if (left.lowerBound.first == right.lowerBound.first) {
+    // For the same lower end point, the open one is the stronger constraint.
+    ret.lowerBound.second = left.lowerBound.second && right.lowerBound.second;
+  }
   return ret;
 }
 
-- 
2.43.0


From 62ee78f9805e4f356699c711845517fc0f565063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 02/16] fix: Zone::intersectionAssign computes the intersection
 instead of discarding it

---
 libmonaa/zone.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index e7d80e9..9677588 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -206,6 +206,6 @@ struct Zone {
 
   void intersectionAssign(Zone z) {
     assert(value.size() == z.value.size());
-    value.cwiseMin(z.value);
+    value = value.cwiseMin(z.value).eval();
   }
 };
-- 
2.43.0


From c213e148413f8680a7c1d4c7a8172cbfc05b07ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 03/16] fix: Zone::makeGuard emits the lower bounds of the zone

---
 libmonaa/zone.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 9677588..83df2a7 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -179,12 +179,13 @@ struct Zone {
       // the second element of Bound is true if the constraint is not strict,
       // i.e., LE or GE.
       Bounds lowerBound = value(0, i + 1);
-      if (lowerBound.first > 0 or
+      // value(0, i + 1) bounds -x, i.e., the lower bound is its negation.
+      if (lowerBound.first < 0 or
           (lowerBound.first == 0 and lowerBound.second == false)) {
         if (lowerBound.second) {
-          guard.push_back(ConstraintMaker(i) >= lowerBound.first);
+          guard.push_back(ConstraintMaker(i) >= -lowerBound.first);
         } else {
-          guard.push_back(ConstraintMaker(i) > lowerBound.first);
+          guard.push_back(ConstraintMaker(i) > -lowerBound.first);
         }
       }
       Bounds upperBound = value(i + 1, 0);
-- 
2.43.0


From 90811aa48ec03c5ccc2d5b11537fbd6c1724031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:57 +0000
Subject: [PATCH 04/16] fix: Zone::abstractize also forgets lower bounds below
 -M

Without it the zone automaton of a loop that does not reset some clock is
infinite and the construction of the skip values does not terminate.
---
 libmonaa/zone.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 83df2a7..910fc91 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -159,6 +159,9 @@ struct Zone {
     for (auto it = value.data(); it < value.data() + value.size(); it++) {
       if (*it >= M) {
         *it = Bounds(infinity);
+      } else if (*it < Bounds(-M.first, false)) {
+        // the lower bounds below -M are indistinguishable, too
+        *it = Bounds(-M.first, false);
       }
     }
   }
-- 
2.43.0


From 368e61e56db86a5361935103a1d094188db55a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:08 +0000
Subject: [PATCH 05/16] fix: monaaDollar and monaaNotNecessaryDollar find every
 initial state

std::binary_search needs a sorted range, but the initial states are in the
order of the input.
---
 libmonaa/monaa.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index beb1c73..514cce0 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -709,7 +709,8 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv.at(s.get()));
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv.at(s.get()));
     }
   }
@@ -1177,7 +1178,8 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv[s.get()]);
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv[s.get()]);
     }
   }
-- 
2.43.0


From 5d2b82dd20f2659c3fcdbe5cccdeab4522f7b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:08 +0000
Subject: [PATCH 06/16] fix: lower end of a match at an event in
 monaaNotNecessaryDollar

---
 libmonaa/monaa.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 514cce0..cfce576 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -1496,7 +1496,7 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
               //            std::move(lowerBeginConstraint));
 
               const Bounds upperEndConstraint = {t, true};
-              const Bounds lowerEndConstraint = {t, true};
+              const Bounds lowerEndConstraint = {-t, true};
 
               // value(2, 1) <= value(2, 0) + value(0, 1)
               const Bounds upperDeltaConstraint =
-- 
2.43.0


From cb62fca634f547455558651625e6441687b5f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:08 +0000
Subject: [PATCH 07/16] fix: KMPSkipValue does not append to the vector it
 iterates over

---
 libmonaa/kmp_skip_value.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 32f3a3b..29fe616 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -64,7 +64,9 @@ public:
     }
     for (auto &state : A0.states) {
       for (auto & it : state->next) {
-        for (TATransition edge : it.second) {
+        // We iterate over a copy because we append to it.second
+        const std::vector<TATransition> edges = it.second;
+        for (TATransition edge : edges) {
           const auto target = edge.target;
           // We can modify edge because it is copied
           if (target && target->isMatch) {
-- 
2.43.0


From 49883a9852096eeb6b6d0dce1eb7576e2aee1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:08 +0000
Subject: [PATCH 08/16] fix: KMPSkipValue over-approximates the beginning and
 the end of the shifted match

The shifted match begins between two events, so that an upper bound that holds
at its events may fail when its clocks are started at the previous event, and
it may end before an event. The guards were widened in the wrong direction and
matches were skipped.
---
 libmonaa/kmp_skip_value.hh | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 29fe616..e463fc5 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -36,20 +36,20 @@ public:
     std::vector<std::shared_ptr<TAState>> extendedInitialStates(m + 1);
     std::generate(extendedInitialStates.begin(), extendedInitialStates.end(), std::make_shared<TAState>);
 
+    std::vector<ClockVariables> allClocks(TA.clockSize());
+    std::iota(allClocks.begin(), allClocks.end(), 0);
+    // The beginning of the shifted matching is at the last skipped event or
+    // strictly between that event and the next one.
     for (const auto& initialState : A0.initialStates) {
-      for (auto it = initialState->next.begin(); it != initialState->next.end();
-           it++) {
-        for (TATransition edge : it->second) {
-          // We can modify edge because it is copied
-          const Alphabet c = it->first;
-          widen(edge.guard);
-          extendedInitialStates[0]->next[c].push_back(std::move(edge));
+      for (const auto &edges : initialState->next) {
+        for (const TATransition &edge : edges.second) {
+          extendedInitialStates[0]->next[edges.first].push_back(edge);
         }
       }
+      extendedInitialStates[0]->next[0].push_back(
+          {initialState.get(), allClocks, {}});
     }
 
-    std::vector<ClockVariables> allClocks(TA.clockSize());
-    std::iota(allClocks.begin(), allClocks.end(), 0);
     for (int i = 1; i <= m; ++i) {
       for (char c = 1; c < CHAR_MAX; ++c) {
         extendedInitialStates[i]->next[c].push_back(
@@ -71,7 +71,15 @@ public:
           // We can modify edge because it is copied
           if (target && target->isMatch) {
             edge.target = dummyAcceptingState.get();
-            widen(edge.guard);
+            // The matching may end before the event. The clock values at the
+            // event are not smaller than those at the end of the matching.
+            edge.guard.erase(
+                std::remove_if(edge.guard.begin(), edge.guard.end(),
+                               [](const Constraint &g) {
+                                 return g.odr == Constraint::Order::lt ||
+                                        g.odr == Constraint::Order::le;
+                               }),
+                edge.guard.end());
             it.second.emplace_back(std::move(edge));
           }
         }
-- 
2.43.0


From 919e04b2413fac7fa227b7543e5f20bf14c55be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:39 +0000
Subject: [PATCH 09/16] fix: ZoneAutomaton::removeDeadStates keeps states that
 reach acceptance through a loop

---
 libmonaa/zone_automaton.hh | 61 ++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/libmonaa/zone_automaton.hh b/libmonaa/zone_automaton.hh
index 8bf92fe..c5ddc96 100644
--- a/libmonaa/zone_automaton.hh
+++ b/libmonaa/zone_automaton.hh
@@ -3,6 +3,7 @@
 #include "timed_automaton.hh"
 #include "zone.hh"
 #include <stack>
+#include <unordered_map>
 #include <unordered_set>
 #include <utility>
 
@@ -57,37 +58,45 @@ struct ZoneAutomaton : public Automaton<ZAState> {
 
   //! @brief remove states unreachable to any accepting states
   void removeDeadStates() {
-    // Find states unreachable to any accepting states
-    using Config = std::pair<std::shared_ptr<ZAState>,
-                             std::unordered_set<std::shared_ptr<ZAState>>>;
-    std::stack<Config> States;
-    for (auto state : initialStates) {
-      States.push(Config(state, {}));
-    }
-    std::unordered_set<std::shared_ptr<ZAState>> reachable;
-    while (!States.empty()) {
-      Config conf = States.top();
-      States.pop();
-      if (conf.first->isMatch) {
-        reachable.insert(conf.first);
-        reachable.insert(conf.second.begin(), conf.second.end());
+    // The states visited from the initial states, and their predecessors
+    std::unordered_map<std::shared_ptr<ZAState>,
+                       std::vector<std::shared_ptr<ZAState>>>
+        predecessors;
+    std::stack<std::shared_ptr<ZAState>> waiting;
+    for (const auto &state : initialStates) {
+      if (predecessors.insert({state, {}}).second) {
+        waiting.push(state);
       }
-      for (const auto &edges : conf.first->next) {
+    }
+    while (!waiting.empty()) {
+      const auto state = waiting.top();
+      waiting.pop();
+      for (const auto &edges : state->next) {
         for (const auto &edge : edges) {
-          if (conf.second.find(conf.first) != conf.second.end()) {
-            // We are in a loop
+          const auto target = edge.lock();
+          if (!target) {
             continue;
           }
-          if (reachable.find(edge.lock()) != reachable.end()) {
-            // The next state is reachable
-            reachable.insert(conf.first);
-            reachable.insert(conf.second.begin(), conf.second.end());
-          } else {
-            // The next state may be unreachable
-            auto parents = conf.second;
-            parents.insert(conf.first);
-            States.push(Config(edge.lock(), parents));
+          if (predecessors.insert({target, {}}).second) {
+            waiting.push(target);
           }
+          predecessors[target].push_back(state);
+        }
+      }
+    }
+    // Among them, the states from which an accepting state is reachable
+    std::unordered_set<std::shared_ptr<ZAState>> reachable;
+    for (const auto &visited : predecessors) {
+      if (visited.first->isMatch && reachable.insert(visited.first).second) {
+        waiting.push(visited.first);
+      }
+    }
+    while (!waiting.empty()) {
+      const auto state = waiting.top();
+      waiting.pop();
+      for (const auto &predecessor : predecessors[state]) {
+        if (reachable.insert(predecessor).second) {
+          waiting.push(predecessor);
         }
       }
     }
-- 
2.43.0


From 5088b681dde7c5fb0096863c722aeb8b6c78cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:18 +0000
Subject: [PATCH 10/16] fix: LazyDeque handles positions beyond INT_MAX and the
 end of input while discarding

---
 libmonaa/lazy_deque.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libmonaa/lazy_deque.hh b/libmonaa/lazy_deque.hh
index 6606572..cb6b671 100644
--- a/libmonaa/lazy_deque.hh
+++ b/libmonaa/lazy_deque.hh
@@ -62,12 +62,15 @@ public:
     }
     const std::size_t eraseSize = std::min(
         newFront - front, std::deque<std::pair<Alphabet, double>>::size());
-    const int readTimes = (newFront - front) - eraseSize;
+    const std::size_t readTimes = (newFront - front) - eraseSize;
     front = newFront;
     this->erase(this->begin(), this->begin() + eraseSize);
-    for (int i = 0; i < readTimes; i++) {
+    for (std::size_t i = 0; i < readTimes; i++) {
       std::pair<Alphabet, double> elem;
-      getElem(file, elem);
+      if (getElem(file, elem) == EOF) {
+        N = std::min(N, front - readTimes + i);
+        return;
+      }
     }
   }
   bool fetch(std::size_t n) noexcept {
@@ -75,9 +78,7 @@ public:
       return false;
     }
     const std::size_t indInDeque = n - front;
-    const int allocTimes =
-        indInDeque - std::deque<std::pair<Alphabet, double>>::size() + 1;
-    for (int i = 0; i < allocTimes; i++) {
+    while (std::deque<std::pair<Alphabet, double>>::size() <= indInDeque) {
       std::pair<Alphabet, double> elem;
       if (getElem(file, elem) == EOF) {
         N = front + std::deque<std::pair<Alphabet, double>>::size();
-- 
2.43.0


From 8350437a4c44948cb9abdb5e3f1ea000c62a3f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:40 +0000
Subject: [PATCH 11/16] fix: time restriction without an upper bound in
 TRE::toEventTA

---
 monaa/tre.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 5614a20..d42d214 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <numeric>
 #include <ostream>
 
@@ -317,7 +318,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
             if (target->next.empty()) {
               edge.guard.reserve(edge.guard.size() + 2);
               // upper bound
-              if (regExprWithin.second->upperBound.second) {
+              if (std::isinf(regExprWithin.second->upperBound.first)) {
+                // no upper bound
+              } else if (regExprWithin.second->upperBound.second) {
                 edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <=
                                         regExprWithin.second->upperBound.first);
               } else {
@@ -339,7 +342,9 @@ void TRE::toEventTA(TimedAutomaton &out) const {
 
               transition.guard.reserve(transition.guard.size() + 2);
               // upper bound
-              if (regExprWithin.second->upperBound.second) {
+              if (std::isinf(regExprWithin.second->upperBound.first)) {
+                // no upper bound
+              } else if (regExprWithin.second->upperBound.second) {
                 transition.guard.emplace_back(
                     TimedAutomaton::X(out.clockSize()) <=
                     regExprWithin.second->upperBound.first);
@@ -372,7 +377,11 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     if (isDummyUsed) {
       out.states.emplace_back(std::move(dummyAcceptingState));
     }
-    out.maxConstraints.emplace_back(regExprWithin.second->upperBound.first);
+    out.maxConstraints.emplace_back(
+        std::isinf(regExprWithin.second->upperBound.first)
+            ? regExprWithin.second->lowerBound.first
+            : std::max(regExprWithin.second->lowerBound.first,
+                       regExprWithin.second->upperBound.first));
     break;
   }
   }
-- 
2.43.0


From b6253c5587b49723a15f8ddc4061c928dbf007e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:40 +0000
Subject: [PATCH 12/16] fix: TRE::toEventTA does not append to the transitions
 it iterates over

---
 monaa/tre.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index d42d214..daa1fa1 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -310,6 +310,7 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     }
     for (auto state : out.states) {
       for (auto &edges : state->next) {
+        std::vector<TATransition> newTransitions;
         for (auto &edge : edges.second) {
           auto target = edge.target;
           if (target && target->isMatch) {
@@ -363,10 +364,12 @@ void TRE::toEventTA(TimedAutomaton &out) const {
                     TimedAutomaton::X(out.clockSize()) >
                     regExprWithin.second->lowerBound.first);
               }
-              edges.second.emplace_back(std::move(transition));
+              newTransitions.emplace_back(std::move(transition));
             }
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     for (auto state : out.states) {
-- 
2.43.0


From 8c6b9a1c75e511909c3fe9b5ec9fc5025b81f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:36 +0000
Subject: [PATCH 13/16] fix: the empty word under a time restriction in
 TRE::toEventTA

---
 monaa/tre.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index daa1fa1..fc2db30 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -298,12 +298,22 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     bool isDummyUsed = false;
     std::shared_ptr<TAState> dummyAcceptingState =
         std::make_shared<TAState>(true);
-    // Make all the zero duration states non-initial
-    // Note: this would not work well if we allow constraints >= 0
-    out.initialStates.erase(std::remove_if(
-                              out.initialStates.begin(), out.initialStates.end(),
-                              [](auto &state) {return state->zeroDuration;}),
-                            out.initialStates.end());
+    // The empty word, whose duration is zero, is accepted if zero is in the
+    // interval. We handle it by a fresh state because the other accepting
+    // states can be reached after some time.
+    const Bounds &lowerBound = regExprWithin.second->lowerBound;
+    const Bounds &upperBound = regExprWithin.second->upperBound;
+    const bool acceptEmpty =
+        lowerBound.first == 0 && lowerBound.second &&
+        (upperBound.first > 0 || (upperBound.first == 0 && upperBound.second)) &&
+        std::any_of(out.initialStates.begin(), out.initialStates.end(),
+                    [](const auto &state) { return state->isMatch; });
+    out.initialStates.erase(
+        std::remove_if(out.initialStates.begin(), out.initialStates.end(),
+                       [](const auto &state) {
+                         return state->isMatch && state->next.empty();
+                       }),
+        out.initialStates.end());
     // Make all the state non-zero duration
     for (auto state : out.states) {
       state->zeroDuration = false;
@@ -380,6 +390,11 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     if (isDummyUsed) {
       out.states.emplace_back(std::move(dummyAcceptingState));
     }
+    if (acceptEmpty) {
+      out.states.emplace_back(std::make_shared<TAState>(true));
+      out.states.back()->zeroDuration = true;
+      out.initialStates.emplace_back(out.states.back());
+    }
     out.maxConstraints.emplace_back(
         std::isinf(regExprWithin.second->upperBound.first)
             ? regExprWithin.second->lowerBound.first
-- 
2.43.0


From 625ca549b4e63426762b12dc79fb2d6a528482b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 14/16] fix: TRE::toEventTA merges accepting states of zero and
 non-zero duration

---
 monaa/tre.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index fc2db30..1153305 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -425,6 +425,12 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     }
   }
   if (terminalAcceptingStates.size() > 1) {
+    // The merged state can be reached after some time if one of them can
+    for (const auto &s : terminalAcceptingStates) {
+      if (!s->zeroDuration) {
+        terminalAcceptingStates.front()->zeroDuration = false;
+      }
+    }
     out.states.erase(
         std::remove_if(
             out.states.begin(), out.states.end(),
-- 
2.43.0


From 01d9c4c57f9c9adacf5711056b00649805c9df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:25 +0000
Subject: [PATCH 15/16] fix: states without init or match attribute are not
 initial or accepting

---
 monaa/timed_automaton_parser.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 00eab35..63012cb 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -239,8 +239,8 @@ static inline std::ostream &operator<<(std::ostream &os,
 }
 
 struct BoostTAState {
-  bool isInit;
-  bool isMatch;
+  bool isInit = false;
+  bool isMatch = false;
 };
 
 struct BoostTATransition {
-- 
2.43.0


From 5b355d271d3aa2cd802a419a06709fecc820cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:25 +0000
Subject: [PATCH 16/16] fix: convBoostTA counts the clocks that are only reset

---
 monaa/timed_automaton_parser.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 63012cb..17d6476 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -305,6 +305,10 @@ static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
             std::max<std::size_t>(TA.maxConstraints.size(), g.x + 1));
         TA.maxConstraints[g.x] = std::max(TA.maxConstraints[g.x], g.c);
       }
+      for (const ClockVariables x : transition.resetVars) {
+        TA.maxConstraints.resize(
+            std::max<std::size_t>(TA.maxConstraints.size(), x + 1));
+      }
       stateConvMap[*first]
           ->next[boost::get(&BoostTATransition::c, BoostTA, *firstEdge)]
           .emplace_back(std::move(transition));
-- 
2.43.0

