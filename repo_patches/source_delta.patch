From a801c5e04ceb9d2194bbfeae0a2c20c7fdb0789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 01/88] fix: switch to the right guarantee in explicit
 counterstrategies

After the system satisfied the guarantee that is currently being prevented, the
counterstrategy moved on to the next unsatisfied guarantee. If transitions satisfy
several guarantees at once, the guarantee that can actually be prevented was skipped
again and again, so that the printed counterstrategy was losing for the environment.
---
 src/extensionExtractExplicitCounterstrategy.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 30163b5..1b9460e 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -190,11 +190,20 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                     nextLivenessAssumption  = (nextLivenessAssumption + 1) % livenessAssumptions.size();
                     firstTry = false;
                 }
+                // If the guarantee that is currently prevented has been satisfied, then the outermost fixed point
+                // computation ensures that the transition leads to a position that has been found to be losing for the
+                // system earlier. So switch to the guarantee by which that position was found. Just moving on to
+                // the next guarantee (or skipping some) does not work here, as the environment may then never
+                // prevent any fixed guarantee.
                 unsigned int nextLivenessGuarantee = current.second.second;
-                firstTry = true;
-                while (((nextLivenessGuarantee != current.second.second) | firstTry) && !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {
-                    nextLivenessGuarantee  = (nextLivenessGuarantee + 1) % livenessGuarantees.size();
-                    firstTry = false;
+                if (!((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {
+                    BF targetState = newCombination.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
+                    for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
+                        if ((boost::get<0>(*it) == nextLivenessAssumption) && !((targetState & boost::get<2>(*it)).isFalse())) {
+                            nextLivenessGuarantee = boost::get<1>(*it);
+                            break;
+                        }
+                    }
                 }
 
                 //Mark which input has been captured by this case. Use the same input for other successors
-- 
2.43.0


From dc39abfddbff1508afa5e42036474fcef527aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 02/88] fix: keep deadlock states apart in explicit
 counterstrategies

Without output propositions, the BDD of a deadlock state is the one of a regular
state, and one of them was printed in place of the other.
---
 src/extensionExtractExplicitCounterstrategy.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 1b9460e..90b8e64 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -95,6 +95,9 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     // to a state number. The vector then contains the concrete valuation.
     std::map<std::pair<size_t, std::pair<unsigned int, unsigned int> >, unsigned int > lookupTableForPastStates;
     std::vector<BF> bfsUsedInTheLookupTable;
+    // Deadlock states only represent input values. They need their own table, as without output
+    // propositions, they would otherwise be confused with the regular states.
+    std::map<std::pair<size_t, std::pair<unsigned int, unsigned int> >, unsigned int > lookupTableForDeadlocks;
     std::list<std::pair<size_t, std::pair<unsigned int, unsigned int> > > todoList;
 
     
@@ -169,7 +172,7 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
         // Can we enforce a deadlock?
         BF deadlockInput = (currentPossibilities & safetyEnv & !safetySys).UnivAbstract(varCubePostOutput);
         if (deadlockInput!=mgr.constantFalse()) {
-            addDeadlocked(deadlockInput, current, bfsUsedInTheLookupTable,  lookupTableForPastStates, outputStream);
+            addDeadlocked(deadlockInput, current, bfsUsedInTheLookupTable, lookupTableForDeadlocks, outputStream);
         } else {
 
             // No deadlock in sight -> Do a normal transition
-- 
2.43.0


From 6ea3220e5b60a2d03f84427b73fa4bfe6abe3f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 03/88] fix: read the output file name of --counterStrategy
 after the specification

The constructor took the first of two file names as the output file, so that the
specification was overwritten, and accessed an empty list without any file name.
---
 src/extensionExtractExplicitCounterstrategy.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 90b8e64..9faa12e 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -41,8 +41,13 @@ protected:
     using T::postOutputVars;
     using T::doesVariableInheritType;
 
-    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {
-        if (filenames.size()==1) {
+    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {}
+
+public:
+
+    void init(std::list<std::string> &filenames) {
+        T::init(filenames);
+        if (filenames.size()==0) {
             outputFilename = "";
         } else {
             outputFilename = filenames.front();
@@ -50,8 +55,6 @@ protected:
         }
     }
 
-public:
-
 /**
  * @brief Compute and print out (to stdout) an explicit-state counter strategy that is winning for
  *        the environment. The output is compatible with the old JTLV output of LTLMoP.
-- 
2.43.0


From aa4bbe2af68549c7516b782911183092d5f3fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 04/88] fix: reject empty memory buffers and recalls of
 elements not stored yet

Formulas such as '$ 0' or '$ 2 ? 1 a' led to undefined behaviour, large
buffer sizes to an uncaught std::bad_alloc.
---
 src/extensionNondeterministicMotion.hpp | 8 ++++----
 src/synthesisContextBasics.cpp          | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 1e4cb03..fc821e9 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -70,16 +70,16 @@ public:
         if (operation=="$") {
             unsigned nofElements;
             is >> nofElements;
-            if (is.fail()) {
+            if (is.fail() || (nofElements==0)) {
                 SlugsException e(false);
                 e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
                 throw e;
             }
-            std::vector<BF> memoryNew(nofElements);
+            std::vector<BF> memoryNew;
             for (unsigned int i=0;i<nofElements;i++) {
-                memoryNew[i] = parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs);
+                memoryNew.push_back(parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs));
             }
-            return memoryNew[nofElements-1];
+            return memoryNew.back();
         }
 
         // Memory Functionality - Recall from Buffer
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index d14ada0..a503bc9 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -38,16 +38,16 @@ BF GR1Context::parseBooleanFormulaRecurse(std::istringstream &is,std::set<Variab
     if (operation=="$") {
         unsigned nofElements;
         is >> nofElements;
-        if (is.fail()) {
+        if (is.fail() || (nofElements==0)) {
             SlugsException e(false);
             e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
             throw e;
         }
-        std::vector<BF> memoryNew(nofElements);
+        std::vector<BF> memoryNew;
         for (unsigned int i=0;i<nofElements;i++) {
-            memoryNew[i] = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            memoryNew.push_back(parseBooleanFormulaRecurse(is,allowedTypes,memoryNew));
         }
-        return memoryNew[nofElements-1];
+        return memoryNew.back();
     }
 
     // Memory Functionality - Recall from Buffer
-- 
2.43.0


From 753bfb245211c4c06f3d8d7664fc8e69f342ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 05/88] fix: report standard library exceptions as errors

For instance, a symbolic strategy that cannot be written ended slugs with
an abort.
---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 792b039..c26ca71 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -370,6 +370,9 @@ int main(int argc, const char **args) {
     } catch (BFDumpDotException e) {
         std::cerr << "Error: " << e.getMessage() << std::endl;
         return 1;
+    } catch (const std::exception &e) {
+        std::cerr << "Error: " << e.what() << std::endl;
+        return 1;
     }
 
 }
-- 
2.43.0


From cbbaf3ed2e9698a7b19e077006e7f9f83ccf8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 06/88] fix: do not drop needed literals from weakened safety
 assumptions

The literal filter compared against the wrong clauses and treated
variables that do not occur in a clause as negative literals, so that the
printed assumptions could be stronger than the original ones.
---
 src/extensionWeakenSafetyAssumptions.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 95783e4..38dea89 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -117,9 +117,9 @@ public:
             for (auto it = clausesFoundSoFarInt.begin();it!=clausesFoundSoFarInt.end();it++) {
                 BF thisClauseBF = mgr.constantFalse();
                 for (unsigned int i=0;i<variables.size();i++) {
-                    if (thisClause[i]>0) {
+                    if ((*it)[i]>0) {
                         thisClauseBF |= variables[i];
-                    } else if (thisClause[i]<0) {
+                    } else if ((*it)[i]<0) {
                         thisClauseBF |= !variables[i];
                     }
                 }
@@ -139,6 +139,12 @@ public:
                     }
                 }
 
+                // Literals that are not in the clause do not need to be considered
+                if (thisClause[i]==0) {
+                    filteredLiterals.push_back(0);
+                    continue;
+                }
+
                 // Check if this literal is needed
                 BF literal;
                 if (thisClause[i]>0) {
-- 
2.43.0


From 57aaf2d18a5ca265c2113724c8b815889a67cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 07/88] fix: only consider admissible initial inputs when
 counting the steps to falsify

An initial input that is excluded by the initial assumptions, but for which
the initial guarantees cannot be satisfied, was counted as a win for the
environment.
---
 src/extensionAnalyzeSafetyLivenessInteraction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeSafetyLivenessInteraction.hpp b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
index e7d0693..7c15bbc 100644
--- a/src/extensionAnalyzeSafetyLivenessInteraction.hpp
+++ b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
@@ -151,7 +151,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From 6cdef73ab2ac2995d5b91350fbb4284518839f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 08/88] fix: start without failed guarantees when testing for
 non-strict implication

In the robotics semantics, positions in which the safety guarantees are
already marked as failed were counted as initial positions.
---
 src/extensionAnalyzeSafetyLivenessInteraction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeSafetyLivenessInteraction.hpp b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
index 7c15bbc..ec5a3a9 100644
--- a/src/extensionAnalyzeSafetyLivenessInteraction.hpp
+++ b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
@@ -118,7 +118,7 @@ protected:
             computeWinningPositions();
 
             bool isWinningTraditionalSemantics = initEnv.Implies((winningPositions & initSys).ExistAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput).isTrue();
-            bool isWinningRoboticsSemantics = (initEnv & initSys).Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput).isTrue();
+            bool isWinningRoboticsSemantics = (initEnv & initSys & !variables[varGuaFailPre]).Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput).isTrue();
 
 
             std::cout << "With a non-strict implication,\n";
-- 
2.43.0


From c764e9a32ea165d7d4f78b1ba4effcbc15dd1d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 09/88] fix: count the losing initial inputs over the inputs
 only

With variable limits over outputs, or with --restrictToReachableStates, the
number was printed as nan, as the counted set depended on output variables.
---
 src/extensionAnalyzeInitialPositions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index fe0cad2..53f3216 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -210,7 +210,7 @@ public:
         double nofWPosAG = (initEnv & initSys & winningPositions & variableLimits).getNofSatisfyingAssignments(varCubePre);
 
         double nofInputs = variableLimits.ExistAbstract(varCubePreOutput).getNofSatisfyingAssignments(varCubePreInput);
-        double nofInputsSystemLosing = (initEnv & variableLimits & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
+        double nofInputsSystemLosing = (initEnv & variableLimits.ExistAbstract(varCubePreOutput) & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
         double nofAllowedInitialInputs = (initEnv & variableLimits.ExistAbstract(varCubePreOutput)).getNofSatisfyingAssignments(varCubePreInput);
 
         std::cout << "Number of winning positions: " << nofWPos << " out of " << nofPos << std::endl;
-- 
2.43.0


From 9b26dfc07b56b27f7423d8b3c0ff08d9e7880143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 10/88] fix: report variable groups without a master variable

The analysis of the initial positions used an uninitialized variable number
for them and crashed.
---
 src/extensionAnalyzeInitialPositions.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index 53f3216..a6bba6c 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -116,6 +116,10 @@ protected:
             }
         }
 
+        for (auto it = variableGroups.begin();it!=variableGroups.end();it++) {
+            if (it->second.masterVariable==(unsigned int)-1) throw std::string("Error: the variable group ")+it->first+" has no master variable. Note that in Slugs, the '@' in variable names is reserved for variables introduced by the structured slugs compiler.";
+        }
+
         // Now enumerate cubes. Due to the fact that different binary
         // cubes could have a/the same interpretation with grouped variables,
         // we store lines already given to the user in order to prevent
-- 
2.43.0


From f8bdcfc064bbb23a83ff68a333a8392037887644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 11/88] fix: keep one liveness assumption when analyzing the
 assumptions

Without any liveness assumption nothing is winning, so that the last one was
always reported to be crucially needed.
---
 src/extensionAnalyzeAssumptions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index f9941e9..15075f3 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -381,6 +381,7 @@ protected:
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
             }
+            if (livenessAssumptions.size()==0) livenessAssumptions.push_back(mgr.constantTrue());
             std::cout << "\"" << livenessEnvPartNames.at(i) << "\" ";
 
             std::vector<std::vector<BF> > newDistances;
-- 
2.43.0


From 0337a25d69abd3c3a77ff2aacbfcfac158876c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 12/88] fix: keep the safety assumptions when analyzing the
 liveness assumptions

They were all dropped together with the analyzed liveness assumption, which
made superfluous liveness assumptions appear to be needed.
---
 src/extensionAnalyzeAssumptions.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index 15075f3..f4a3605 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -376,7 +376,6 @@ protected:
 
             //if (i==1) throw "Aaargh!";
 
-            safetyEnv = mgr.constantTrue();
             livenessAssumptions.clear();
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
-- 
2.43.0


From 89fccecdae50592a9f9494912bcb0914652e4d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 13/88] fix: initialize the flag for outputs that can be set
 before reading the input

The interleaving analysis could claim that the specification stays realizable
and then list no output signal.
---
 src/extensionInterleave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 004d9e4..0d44964 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -190,7 +190,7 @@ public:
             std::cout << "Starting point is a realizable specification.\n\n";
 
             // Try to "pre" Some variables
-            bool foundOne;
+            bool foundOne = false;
             for (unsigned int i=0;i<variables.size();i++) {
                 if (doesVariableInheritType(i,PreOutput)) {
                     variableTypes[i] = PreOutputBefore;
-- 
2.43.0


From 448ec2ae1cba1acc5badbbca1dd5b7d1559a93c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 14/88] fix: do not list an output that cannot be set before
 reading the input

The variable information was stale after the check of the last output.
---
 src/extensionInterleave.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 0d44964..7583099 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -201,6 +201,7 @@ public:
                     if (!realizable) {
                         variableTypes[i] = PreOutputAfter;
                         variableTypes[i+1] = PostOutputAfter;
+                        computeVariableInformation();
                     } else {
                         foundOne = true;
                     }
-- 
2.43.0


From f84bbb22be0bf6471caa0b97796d58e1c8e29f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 15/88] fix: let the system choose the other outputs with
 non-deterministic motion

The next values of the outputs in the [OTHER OUTPUT] section were never
quantified, which made slugs end with an internal error.
---
 src/extensionNondeterministicMotion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index fc821e9..e31660e 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -35,7 +35,7 @@ protected:
     SlugsVectorOfVarBFs postMotionStateVars{PostMotionState,this};
     SlugsVarCube varCubePreMotionState{PreMotionState,this};
     SlugsVarCube varCubePostMotionState{PostMotionState,this};
-    SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,this};
+    SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,PostOtherOutput,this};
 
 public:
     static GR1Context* makeInstance(std::list<std::string> &filenames) {
-- 
2.43.0


From 7ac3faf688280c2765fcef9cb49975317d5a8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 16/88] fix: report BDD files that cannot be read

A robot abstraction file that is not in the DDDMP format crashed slugs.
---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c           | 6 ++++++
 src/BFAbstractionLibrary/BFCuddManager.cpp | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index d00502e..4b6d7d2 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -648,6 +648,12 @@ DddmpCuddDdArrayLoad (
   nddvars = ddMgr->size;
 
   Hdr = DddmpBddReadHeader (NULL, fp);
+  if (Hdr == NULL) {
+    if (fileToClose) {
+      fclose (fp);
+    }
+    return (0);
+  }
 
   Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
     failure);
diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 094e486..c124a87 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -146,6 +146,11 @@ BFBdd BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &va
     DdNode *node = Dddmp_cuddBddLoad(mgr, DDDMP_VAR_COMPOSEIDS, NULL, NULL, idMatcher, DDDMP_MODE_DEFAULT,NULL,file);
     fclose(file);
     delete[] idMatcher;
+    if (node == NULL) {
+        std::ostringstream os;
+        os << "Error in BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &vars) - File '" << filename << "' does not contain a BDD in DDDMP format.";
+        throw std::runtime_error(os.str().c_str());
+    }
     Cudd_Deref(node);
     return BFBdd(this,node);   
 }
-- 
2.43.0


From d9ed25195f590051e5df8deb0334ab3a509711ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 17/88] fix: reject BDD files with more variables than expected

The variable numbers in the file were used as indices without a check.
---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c           |  2 ++
 src/BFAbstractionLibrary/BFCuddManager.cpp | 26 ++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index 4b6d7d2..4112af1 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -411,6 +411,8 @@ Dddmp_cuddHeaderLoad (
 
   Hdr = DddmpBddReadHeader (NULL, fp);
 
+  Dddmp_CheckAndGotoLabel (Hdr==NULL, "Error reading header.",
+    failure);
   Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
     failure);
 
diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index c124a87..119f654 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -139,6 +139,32 @@ BFBdd BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &va
         throw std::runtime_error(os.str().c_str());
     }
 
+    // The file may only refer to the variables given
+    Dddmp_DecompType ddType;
+    int nofVars, nofSupportVars, nofRoots;
+    char **supportVarNames = NULL, **orderedVarNames = NULL;
+    int *varIds = NULL, *varComposeIds = NULL, *varAuxIds = NULL;
+    if (Dddmp_cuddHeaderLoad(&ddType,&nofVars,&nofSupportVars,&supportVarNames,&orderedVarNames,&varIds,&varComposeIds,&varAuxIds,&nofRoots,NULL,file)==DDDMP_SUCCESS) {
+        bool unknownVariable = false;
+        for (int i=0;i<nofSupportVars;i++) {
+            if ((varIds!=NULL) && ((varIds[i]<0) || (varIds[i]>=(int)(vars.size())))) unknownVariable = true;
+            if (supportVarNames!=NULL) free(supportVarNames[i]);
+        }
+        if (orderedVarNames!=NULL) for (int i=0;i<nofVars;i++) free(orderedVarNames[i]);
+        free(supportVarNames);
+        free(orderedVarNames);
+        free(varIds);
+        free(varComposeIds);
+        free(varAuxIds);
+        if (unknownVariable) {
+            fclose(file);
+            std::ostringstream os;
+            os << "Error in BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &vars) - The BDD in file '" << filename << "' has more variables than expected.";
+            throw std::runtime_error(os.str().c_str());
+        }
+    }
+    rewind(file);
+
     int *idMatcher = new int[vars.size()];
     for (unsigned int i=0;i<vars.size();i++) {
         idMatcher[i] = vars[i].readNodeIndex();
-- 
2.43.0


From b30adc13aa943d9b645eb37b3648b63b12b6a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 18/88] fix: interactive strategy shell: index the strategies
 by their own number in unrealizable specifications

---
 src/extensionInteractiveStrategy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 9c56b3a..a7e5c3a 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -260,7 +260,7 @@ public:
                 // Analyse if it is part of a possible strategy
                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                 foundOne = false;
-                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                     if (!(positionalStrategiesForTheIndividualGoals[i] & from & to).isFalse()) {
                         if (foundOne) std::cout << ", ";
                         foundOne = true;
@@ -297,7 +297,9 @@ public:
                 currentPosition = from;
             } else if (command=="MOVE") {
 
-                if (currentPosition == mgr.constantFalse()) {
+                if (!realizable) {
+                    std::cout << "Error: MOVE is only supported for realizable specifications." << std::endl;
+                } else if (currentPosition == mgr.constantFalse()) {
                     std::cout << "Error: The current position is undefined. Use SETPOS prior to calling MOVE." << std::endl;
                 } else {
 
@@ -484,6 +486,7 @@ public:
                 std::cout.flush();
             } else if (command=="XMAKETRANSRANDOM") {
                 std::cout << "\n"; // Get rid of the prompt
+                if (!realizable) throw "Error: XMAKETRANSRANDOM is only supported for realizable specifications";
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-- 
2.43.0


From ef5997d9623a2623ec3ce69bdb67e39e477b79a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 19/88] fix: interactive strategy shell: a value that cannot be
 read blocked the shell forever

---
 src/extensionInteractiveStrategy.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index a7e5c3a..f0400b1 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -44,6 +44,14 @@ protected:
     using T::doesVariableInheritType;
 
 
+    /**
+     * @brief Makes std::cin usable again after a value could not be read, and skips the rest of that value.
+     */
+    static void skipUnreadableValue() {
+        std::cin.clear();
+        for (int c=std::cin.peek();(c!=std::char_traits<char>::eof()) && !isspace(c);c=std::cin.peek()) std::cin.get();
+    }
+
 public:
     static GR1Context* makeInstance(std::list<std::string> &filenames) {
         return new XInteractiveStrategy<T>(filenames);
@@ -183,6 +191,7 @@ public:
                         if (std::cin.fail()) {
                             std::cout << "    -> Error reading value. Assuming 0.\n";
                             value = 0;
+                            skipUnreadableValue();
                         }
                         if (value==0) {
                             from &= !variables[i];
@@ -206,6 +215,7 @@ public:
                         if (std::cin.fail()) {
                             std::cout << "    -> Error reading value. Assuming 0.\n";
                             value = 0;
+                            skipUnreadableValue();
                         }
                         if (value==0) {
                             from &= !variables[i];
@@ -283,6 +293,7 @@ public:
                         if (std::cin.fail()) {
                             std::cout << "    -> Error reading value. Assuming 0.\n";
                             value = 0;
+                            skipUnreadableValue();
                         }
                         if (value==0) {
                             from &= !variables[i];
@@ -309,6 +320,7 @@ public:
                     std::cin >> guarantee;
                     if (std::cin.fail()) {
                         std::cout << "    -> Error reading value. Aborting \n";
+                        skipUnreadableValue();
                     } else if (guarantee>=livenessGuarantees.size()) {
                         std::cout << "    -> Number too large. Aborting \n";
                     } else {
@@ -331,6 +343,7 @@ public:
                                     if (std::cin.fail()) {
                                         std::cout << "    -> Error reading value. Assuming 0.\n";
                                         value = 0;
+                                        skipUnreadableValue();
                                     }
                                     if (value==0) {
                                         to &= !variables[i];
-- 
2.43.0


From f232e96eeb03bde18b06142523dd1702de468c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 20/88] fix: interactive strategy shell: do not show a position
 when there is no winning initial one

---
 src/extensionInteractiveStrategy.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index f0400b1..82d5106 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -165,7 +165,10 @@ public:
                 return;
             } else if (command=="STARTPOS") {
                 BF initialPosition = winningPositions & initEnv & initSys;
-                assert(!(initialPosition.isFalse()));
+                if (initialPosition.isFalse()) {
+                    std::cout << "Error: There is no winning initial position." << std::endl;
+                    continue;
+                }
                 initialPosition = determinize(initialPosition,preVars);
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i, Pre)) {
@@ -579,6 +582,10 @@ public:
             } else if (command=="XGETINIT") {
                 std::cout << "\n"; // Get rid of the prompt
                 BF initialPosition = winningPositions & initEnv & initSys;
+                if (initialPosition.isFalse()) {
+                    std::cout << "ERROR" << std::endl;
+                    continue;
+                }
                 initialPosition = determinize(initialPosition,preVars);
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PreInput)) {
-- 
2.43.0


From 540409cb7d1c05b6055f26262ad3f702f3030fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 21/88] fix: interactive strategy shell: report an error when
 the strategy has no transition for the position set

---
 src/extensionInteractiveStrategy.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 82d5106..65cec69 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -455,14 +455,12 @@ public:
                         }
                     }
                 }
-                BF trans = currentPosition & postInput & safetyEnv;
+                BF trans = currentPosition & postInput & safetyEnv & positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
                 if (trans.isFalse()) {
                     std::cout << "ERROR\n";
                     if (currentPosition.isFalse()) {
                     }
                 } else {
-                    trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
-
                     // Switching goals
                     BF newCombination = determinize(trans,postVars);
 
@@ -517,14 +515,12 @@ public:
                         }
                     }
                 }
-                BF trans = currentPosition & postInput & safetyEnv;
+                BF trans = currentPosition & postInput & safetyEnv & positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
                 if (trans.isFalse()) {
                     std::cout << "ERROR\n";
                     if (currentPosition.isFalse()) {
                     }
                 } else {
-                    trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
-
                     // Switching goals
                     BF newCombination = determinizeRandomized(trans,postVars);
 
-- 
2.43.0


From e19a22489e44fcf6c010a880449dc3d82ef23bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 22/88] fix: interactive strategy shell: a goal that consists
 of a single transition was never counted as reached

---
 src/extensionInteractiveStrategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 65cec69..80a9bfd 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -1071,8 +1071,8 @@ public:
                             std::cout << std::endl;
 
                             // Print new assumption and guarantee goal counters
-                            if (allSoFar < livenessAssumptions[livenessAssumption]) livenessAssumption++;
-                            if (allSoFar < livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
+                            if (allSoFar <= livenessAssumptions[livenessAssumption]) livenessAssumption++;
+                            if (allSoFar <= livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
                             std::cout << livenessAssumption % livenessAssumptions.size() << std::endl;
                             std::cout << livenessGuarantee % livenessGuarantees.size() << std::endl;
 
-- 
2.43.0


From 67ba5e7348b161e70600452a90e5d103209b5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 23/88] fix: interactive strategy shell: XGETINIT starts with
 goal 0, as it prints

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 80a9bfd..9718312 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -603,6 +603,7 @@ public:
                 }
                 std::cout << ",0" << std::endl; // Flushes, too.
                 currentPosition = initialPosition;
+                currentLivenessGuarantee = 0;
             } else if (command=="XCOMPLETEINIT") {
 
                 // This command takes a set of forced values and completes it such that
-- 
2.43.0


From 0f9f705a83f0e269d38790e6fe73fdf82e5cfffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 24/88] fix: interactive strategy shell: MOVE continued from an
 undefined input after a value that is assumed to be 1

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 9718312..1eb6520 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -357,6 +357,7 @@ public:
                                     } else {
                                         std::cout << "    -> Value != 0 or 1. Assuming 1.\n";
                                         to &= variables[i];
+                                        nextPosition &= variables[i];
                                     }
                                 }
                             }
-- 
2.43.0


From c789cf0ed6b6bfcf89c60b4ac6c991a08b69a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 25/88] fix: interesting run: continue with the transition for
 which the goals have been evaluated

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 48dba8d..0580a8d 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -154,7 +154,7 @@ public:
 
             // Compute next position
             assert(nextPosition < safetySys);
-            nextPosition = determinizeRandomized(nextPosition.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost),preVars);
+            nextPosition = edge.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
             trace.push_back(nextPosition);
 
             //std::ostringstream npname;
-- 
2.43.0


From 354357b765d98a17ac59400eaef72f3c9b769c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 26/88] fix: interesting run: goals that consist of a single
 transition were never reached, dead ends always satisfied all goals

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 0580a8d..1cf3eac 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -129,7 +129,7 @@ public:
             //BF_newDumpDot(*this,currentPosition,"Pre Post",flexname.str().c_str());
 
             // Sys Liveness progress
-            if (edge < livenessGuarantees[systemGoals.back()]) {
+            if (!(edge.isFalse()) && (edge <= livenessGuarantees[systemGoals.back()])) {
                 systemGoals.push_back((systemGoals.back() + 1) % livenessGuarantees.size());
                 systemGoalsSat.push_back(true);
             } else {
@@ -139,7 +139,7 @@ public:
             }
 
             // Env Liveness progress
-            if (edge < livenessAssumptions[environmentGoals.back()]) {
+            if (!(edge.isFalse()) && (edge <= livenessAssumptions[environmentGoals.back()])) {
                 environmentGoals.push_back((environmentGoals.back() + 1) % livenessAssumptions.size());
                 environmentGoalsSat.push_back(true);
             } else {
@@ -149,8 +149,8 @@ public:
             }
 
             // Violations
-            safetyEnvViolation.push_back(!(edge < safetyEnv));
-            safetySysViolation.push_back(!(edge < safetySys));
+            safetyEnvViolation.push_back(!(edge <= safetyEnv));
+            safetySysViolation.push_back(!(edge <= safetySys));
 
             // Compute next position
             assert(nextPosition < safetySys);
-- 
2.43.0


From ecfbb8c69db6c0eee283ef9b5c18efeac2e20cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 27/88] fix: interesting run: out-of-bounds reads for the last
 position of the run

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 1cf3eac..b01ad4c 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -162,7 +162,11 @@ public:
             //BF_newDumpDot(*this,nextPosition,NULL,npname.str().c_str());
         }
 
+        // The last position has no outgoing transition
         systemGoalsSat.push_back(false);
+        environmentGoalsSat.push_back(false);
+        safetyEnvViolation.push_back(false);
+        safetySysViolation.push_back(false);
 
         //========================
         // Compute variable groups
-- 
2.43.0


From 0b4b9c232c5b48ef5bb219d063833bbbee4d6f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 28/88] fix: interesting run: the environment strategy must not
 violate the safety assumptions

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index b01ad4c..bdc52b0 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -88,7 +88,7 @@ public:
             BF moves = mgr.constantFalse();
             do {
                 oldWinning = winning;
-                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput);
+                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput) & safetyEnv;
                 winning = newMoves.ExistAbstract(varCubePostInput);
                 moves |= winning & !oldWinning & newMoves;
             } while (winning!=oldWinning);
-- 
2.43.0


From a1e0e3ce1f90be208677971f997de2937ecf6dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 29/88] fix: abstract winning trace: initial inputs that the
 environment may not choose do not let it win

---
 src/extensionAbstractWinningTraceGenerator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAbstractWinningTraceGenerator.hpp b/src/extensionAbstractWinningTraceGenerator.hpp
index c09daa6..cdf56b2 100644
--- a/src/extensionAbstractWinningTraceGenerator.hpp
+++ b/src/extensionAbstractWinningTraceGenerator.hpp
@@ -118,7 +118,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From 7d48f5119b98189273b5aaef66b74ac2ddc8a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 30/88] fix: report input files that cannot be read (such as
 directories) instead of taking them for an empty specification

---
 src/extensionAnalyzeAssumptions.hpp                      | 2 ++
 src/extensionAnalyzeInitialPositions.hpp                 | 2 ++
 src/extensionIROSfastslow.hpp                            | 2 ++
 src/extensionIncompleteInformationEstimatorSynthesis.hpp | 2 ++
 src/extensionNondeterministicMotion.hpp                  | 1 +
 src/synthesisContextBasics.cpp                           | 2 ++
 6 files changed, 11 insertions(+)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index f4a3605..ad5f9c1 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -162,6 +162,8 @@ protected:
             }
         }
 
+        if (inFile.bad()) throw "Error: Cannot read input file";
+
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
         if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index a6bba6c..06c97c8 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -364,6 +364,8 @@ public:
             }
         }
 
+        if (inFile.bad()) throw "Error: Cannot read input file";
+
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
         if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionIROSfastslow.hpp b/src/extensionIROSfastslow.hpp
index 50b81ad..ea13229 100644
--- a/src/extensionIROSfastslow.hpp
+++ b/src/extensionIROSfastslow.hpp
@@ -190,6 +190,8 @@ void init(std::list<std::string> &filenames) {
         }
     }
 
+    if (inFile.bad()) throw "Error: Cannot read input file";
+
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
     if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index f3bccec..42c66a4 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -146,6 +146,8 @@ protected:
             }
         }
 
+        if (inFile.bad()) throw "Error: Cannot read input file";
+
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
         if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index e31660e..c3f72e0 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -328,6 +328,7 @@ public:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Cannot read input file";
 
         std::vector<BF> varsBDDread;
         // Invert all order to get the least significant bit first
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index a503bc9..747cad0 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -217,6 +217,8 @@ void GR1Context::init(std::list<std::string> &filenames) {
         }
     }
 
+    if (inFile.bad()) throw "Error: Cannot read input file";
+
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
     if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
-- 
2.43.0


From 2a30a8a1ff23df82c3d79dd2477278ded21003cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 31/88] fix: report strategies that cannot be written
 completely

---
 src/BFAbstractionLibrary/BFCuddManager.cpp      | 4 ++--
 src/extensionExtractExplicitCounterstrategy.hpp | 2 +-
 src/extensionExtractExplicitStrategy.hpp        | 2 +-
 src/extensionPermissiveExplicitStrategy.hpp     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 119f654..a23a4c6 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -217,9 +217,9 @@ void BFBddManager::writeBDDToFile(const char *filename, std::string fileprefix,
     );
 
     delete[] idMatcher;
-    fclose(file);
+    int closeReturnValue = fclose(file);
 
-    if (storeReturnValue!=DDDMP_SUCCESS) throw "Error: Unable to write BDD to file.";
+    if ((storeReturnValue!=DDDMP_SUCCESS) || (closeReturnValue!=0)) throw "Error: Unable to write BDD to file.";
 
 }
 
diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 9faa12e..8fe050a 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -76,12 +76,12 @@ void execute() {
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
 }
diff --git a/src/extensionExtractExplicitStrategy.hpp b/src/extensionExtractExplicitStrategy.hpp
index e2f71c8..4aeffb3 100644
--- a/src/extensionExtractExplicitStrategy.hpp
+++ b/src/extensionExtractExplicitStrategy.hpp
@@ -62,12 +62,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
diff --git a/src/extensionPermissiveExplicitStrategy.hpp b/src/extensionPermissiveExplicitStrategy.hpp
index 8695ccc..111d86c 100644
--- a/src/extensionPermissiveExplicitStrategy.hpp
+++ b/src/extensionPermissiveExplicitStrategy.hpp
@@ -65,12 +65,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
-- 
2.43.0


From 3a96c399831e68de6c6faabb5ad30df50a112795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 32/88] fix: structured specifications: translate XOR in
 Boolean formulas

---
 tools/StructuredSlugsParser/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index e8d3f6b..4cef0b2 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -412,6 +412,11 @@ def parseSimpleFormula(tree, isPrimed):
         for a in tree[2:]:
             ret = ["|"]+ret+parseSimpleFormula(a,isPrimed)
         return ret
+    if (tree[0]=="Xor"):
+        ret = parseSimpleFormula(tree[1],isPrimed)
+        for a in tree[2:]:
+            ret = ["^"]+ret+parseSimpleFormula(a,isPrimed)
+        return ret
     if (tree[0]=="UnaryFormula"):
         if tree[1][0]=="NotOperator":
             return ["!"]+parseSimpleFormula(tree[2],isPrimed)
-- 
2.43.0


From 2762ab38b882ad5b24b1ea530b888d220a7e834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 33/88] fix: structured specifications: refuse variables with a
 negative minimum with an error message

---
 tools/StructuredSlugsParser/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index 4cef0b2..7218bb6 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -539,6 +539,9 @@ def performConversion(inputFile,thoroughly):
                 except ValueError:
                     print("Error reading line '"+line+"' in section "+variableType+": the minimal and maximal values are not given as numbers",file=sys.stderr)
                     raise Exception("Failed to translate file.")
+                if minValue<0:
+                    print("Error reading line '"+line+"' in section "+variableType+": negative values are not supported",file=sys.stderr)
+                    raise Exception("Failed to translate file.")
                 if minValue>maxValue:
                     print("Error reading line '"+line+"' in section "+variableType+": the minimal value should be smaller than the maximum one (or at least equal)",file=sys.stderr)
                     raise Exception("Failed to translate file.")
-- 
2.43.0


From 854fec15d35570a3c55b3985a43d71c7da16d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 34/88] fix: strategy to Graphviz: accept states without
 successors

---
 tools/explicitStrategyToGraphviz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/explicitStrategyToGraphviz.py b/tools/explicitStrategyToGraphviz.py
index 29f59e2..08b9556 100755
--- a/tools/explicitStrategyToGraphviz.py
+++ b/tools/explicitStrategyToGraphviz.py
@@ -32,9 +32,9 @@ for line in sys.stdin.readlines():
     propositions = thesePropositions
     
     states[stateNo] = (rank,theseValues)
-  if line.strip().startswith("With successors : "):
-    successors = line.strip()[18:]
-    successors = [a.strip() for a in successors.split(",")]
+  if line.strip().startswith("With successors :"):
+    successors = line.strip()[17:]
+    successors = [a.strip() for a in successors.split(",") if a.strip()!=""]
     transitions[stateNo] = successors
 
 # Empty output
-- 
2.43.0


From f21dc80cc3753b3e5bb82ecbbea38a61face6240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 35/88] fix: integer decoder: accept states without
 propositions

---
 tools/explicitImplementationIntegerDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/explicitImplementationIntegerDecoder.py b/tools/explicitImplementationIntegerDecoder.py
index e1bce11..9dae50a 100755
--- a/tools/explicitImplementationIntegerDecoder.py
+++ b/tools/explicitImplementationIntegerDecoder.py
@@ -14,7 +14,7 @@ for line in sys.stdin.readlines():
         
         # Split the components
         stateComponents = part2.split(", ")
-        stateComponents = [a.split(":") for a in stateComponents]
+        stateComponents = [a.split(":") for a in stateComponents if a!=""]
         for a in stateComponents:
             assert len(a)==2
         stateComponents = [(a[0],a[1]) for a in stateComponents]
-- 
2.43.0


From 0dcc78d9691ac11373f09e60ee0e256d7604a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 36/88] fix: interactive strategy: do not use values that could
 not be read, allow specifications without variables

---
 src/extensionInteractiveStrategy.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 1eb6520..58fcdf9 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -445,7 +445,7 @@ public:
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-                        char c;
+                        char c = ' ';
                         std::cin >> c;
                         if (c=='0') {
                             postInput &= !variables[i];
@@ -505,7 +505,7 @@ public:
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-                        char c;
+                        char c = ' ';
                         std::cin >> c;
                         if (c=='0') {
                             postInput &= !variables[i];
@@ -619,7 +619,7 @@ public:
                 for (const VariableType &type: {PreInput, PreOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
                         if (doesVariableInheritType(i,type)) {
-                            char c;
+                            char c = ' ';
                             std::cin >> c;
                             if (c=='0') {
                                 forced &= !variables[i];
@@ -637,7 +637,7 @@ public:
                 BF possibleInitialPositions = initEnv & forced;
 
                 // There exists an allowed initial position
-                char result[preVars.size()];
+                std::vector<char> result(preVars.size());
                 unsigned int resultPtr = 0;
                 for (const VariableType &type: {PreInput, PreOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
@@ -832,7 +832,7 @@ public:
                 for (const VariableType &type: {PreInput, PreOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
                         if (doesVariableInheritType(i,type)) {
-                            char c;
+                            char c = ' ';
                             std::cin >> c;
                             if (c=='0') {
                                 startingPoint &= !variables[i];
@@ -850,7 +850,7 @@ public:
                 for (const VariableType &type: {PostInput, PostOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
                         if (doesVariableInheritType(i,type)) {
-                            char c;
+                            char c = ' ';
                             std::cin >> c;
                             if (c=='0') {
                                 forced &= !variables[i];
@@ -887,7 +887,7 @@ public:
                 } else {
 
                     // So there exist transitions. Prepare result array
-                    char result[preVars.size()];
+                    std::vector<char> result(preVars.size());
                     unsigned int resultPtr = 0;
                     for (const VariableType &type: {PostInput, PostOutput}) {
                         for (unsigned int i=0;i<variables.size();i++) {
-- 
2.43.0


From db0fbd17ed154004ee0b5c33a5029fe041b90ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 37/88] fix: interactive strategy: refuse liveness goal numbers
 that are unreadable or too large

---
 src/extensionInteractiveStrategy.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 58fcdf9..20d1fae 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -870,6 +870,15 @@ public:
                 unsigned int livenessGuarantee;
                 std::cin >> livenessAssumption;
                 std::cin >> livenessGuarantee;
+                if (std::cin.fail()) {
+                    std::cout << "Error: Illegal liveness goal numbers given." << std::endl;
+                    skipUnreadableValue();
+                    continue;
+                }
+                if ((livenessAssumption>=livenessAssumptions.size()) || (livenessGuarantee>=livenessGuarantees.size())) {
+                    std::cout << "Error: Liveness goal number too large." << std::endl;
+                    continue;
+                }
 
                 std::cerr << "Starting from liveness assumption/guarantee " << livenessAssumption << "/" << livenessGuarantee << std::endl;
 
-- 
2.43.0


From e72ca263e0034b7754ce31116a2b8cac77ad9d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 38/88] fix: estimator synthesis: report missing bits of
 integer variables instead of accessing non-existing variables

---
 ...ionIncompleteInformationEstimatorSynthesis.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index 42c66a4..810e219 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -472,7 +472,7 @@ protected:
                                         std::ostringstream varName;
                                         varName << referenceVarPrefix << "@" << i;
                                         if (doesVariableInheritType(referenceVar,Post)) varName << "'";
-                                        BF thisVar = variables[findVariableNumber(varName.str())];
+                                        BF thisVar = findExistingVariable(varName.str());
                                         if ((normalizedValue & (1 << i))>0) {
                                             bfReference &= thisVar;
                                         } else {
@@ -499,7 +499,7 @@ protected:
                                             std::ostringstream varName;
                                             varName << simulatedVarPrefix << "@" << i;
                                             if (doesVariableInheritType(simulatedVar,Post)) varName << "'";
-                                            BF thisVar = variables[findVariableNumber(varName.str())];
+                                            BF thisVar = findExistingVariable(varName.str());
                                             if ((normalizedValue & (1 << i))>0) {
                                                 bfSimulated &= thisVar;
                                             } else {
@@ -560,6 +560,17 @@ protected:
         return in;
     }
 
+    //! Looks up a bit of a variable group
+    BF findExistingVariable(std::string name) const {
+        unsigned int number = findVariableNumber(name);
+        if (number>=variables.size()) {
+            std::ostringstream error;
+            error << "Error: There is no variable '" << name << "', which is needed to represent all values of its integer variable.";
+            throw SlugsException(false,error.str());
+        }
+        return variables[number];
+    }
+
 public:
     static GR1Context* makeInstance(std::list<std::string> &filenames) {
         return new XIncompleteInformationEstimatorSynthesis<T>(filenames);
-- 
2.43.0


From bb6e1f9e0f4088af9a6c420eb633f1da99f1ff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 39/88] fix: two-dimensional cost: refuse negative costs and
 factors, for which the computation does not terminate

---
 src/extensionTwoDimensionalCost.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 55b1caa..8abbf4b 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -170,6 +170,10 @@ public:
             std::cerr << "Error: Assume that the first line in the cost file contains factors for waiting and action cost and either '<' or '>', all seperated by spaces.\n";
             throw "Terminated.";
         }
+        if ((preferenceFactorWaiting<0) || (preferenceFactorAction<0)) {
+            std::cerr << "Error: The factors for waiting and action cost in the first line of the cost file must not be negative.\n";
+            throw "Terminated.";
+        }
 
         // For correct error messages when reading the transition costs to come
         lineNumberCurrentlyRead = 1;
@@ -200,6 +204,10 @@ public:
                         std::cerr << "Error: Cannot read line'" << nextLine << "' from the input file - expecting space-separated cost value (floating point number) in front of the line (case 2).\n";
                         throw "Terminated.";
                     }
+                    if (value<0) {
+                        std::cerr << "Error: Cannot read line'" << nextLine << "' from the input file - transition costs must not be negative.\n";
+                        throw "Terminated.";
+                    }
                     BF newBF = parseBooleanFormula(nextLine.substr(spaceIndex+1),allowedTypes);
                     if (transitionCosts.count(value)==0) {
                         transitionCosts[value] = newBF;
-- 
2.43.0


From df9f7ee1565bad743945c1f24713750fd512fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 40/88] fix: Cudd_bddCharToVect released the wrong components
 when reordering changed the variable order

---
 lib/cudd-3.0.0/cudd/cuddGenCof.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddGenCof.c b/lib/cudd-3.0.0/cudd/cuddGenCof.c
index f999067..d1e478f 100644
--- a/lib/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/lib/cudd-3.0.0/cudd/cuddGenCof.c
@@ -496,16 +496,16 @@ Cudd_bddCharToVect(
     do {
 	dd->reordered = 0;
 	for (i = 0; i < dd->size; i++) {
-	    res = cuddBddCharToVect(dd,f,dd->vars[dd->invperm[i]]);
+	    res = cuddBddCharToVect(dd,f,dd->vars[i]);
 	    if (res == NULL) {
 		/* Clean up the vector array in case reordering took place. */
 		for (j = 0; j < i; j++) {
-		    Cudd_IterDerefBdd(dd, vect[dd->invperm[j]]);
+		    Cudd_IterDerefBdd(dd, vect[j]);
 		}
 		break;
 	    }
 	    cuddRef(res);
-	    vect[dd->invperm[i]] = res;
+	    vect[i] = res;
 	}
     } while (dd->reordered == 1);
     if (res == NULL) {
-- 
2.43.0


From 4e2f78666af5bbbdf6f5d149d8fd81c61b84e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 41/88] fix: cuddBddMakePrime walked nodes of the cube that
 reordering had released

---
 lib/cudd-3.0.0/cudd/cuddSat.c | 54 +++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddSat.c b/lib/cudd-3.0.0/cudd/cuddSat.c
index bce24ee..fd54089 100644
--- a/lib/cudd-3.0.0/cudd/cuddSat.c
+++ b/lib/cudd-3.0.0/cudd/cuddSat.c
@@ -969,15 +969,41 @@ cuddBddMakePrime(
     DdNode *t, *e;
     DdNode *res = cube;
     DdNode *lzero = Cudd_Not(DD_ONE(dd));
-
-    Cudd_Ref(res);
+    int *indices;
+    int i, n = 0;
+
+    /* Collect the variables of the cube first: its nodes do not survive
+    ** the reordering that the operations below may trigger. */
+    indices = ALLOC(int, dd->size + 1);
+    if (indices == NULL) {
+	dd->errorCode = CUDD_MEMORY_OUT;
+	return(NULL);
+    }
     scan = cube;
     while (!Cudd_IsConstantInt(scan)) {
-	DdNode *reg = Cudd_Regular(scan);
-	DdNode *var = dd->vars[reg->index];
+	indices[n++] = Cudd_Regular(scan)->index;
+	cuddGetBranches(scan,&t,&e);
+	if (t == lzero) {
+	    scan = e;
+	} else if (e == lzero) {
+	    scan = t;
+	} else {
+	    FREE(indices);
+	    return(NULL);	/* cube is not a cube */
+	}
+    }
+    if (scan != DD_ONE(dd)) {
+	FREE(indices);
+	return(NULL);
+    }
+
+    Cudd_Ref(res);
+    for (i = 0; i < n; i++) {
+	DdNode *var = dd->vars[indices[i]];
 	DdNode *expanded = Cudd_bddExistAbstract(dd,res,var);
 	if (expanded == NULL) {
             Cudd_RecursiveDeref(dd,res);
+	    FREE(indices);
 	    return(NULL);
 	}
 	Cudd_Ref(expanded);
@@ -987,24 +1013,10 @@ cuddBddMakePrime(
 	} else {
 	    Cudd_RecursiveDeref(dd,expanded);
 	}
-	cuddGetBranches(scan,&t,&e);
-	if (t == lzero) {
-	    scan = e;
-	} else if (e == lzero) {
-	    scan = t;
-	} else {
-	    Cudd_RecursiveDeref(dd,res);
-	    return(NULL);	/* cube is not a cube */
-	}
-    }
-
-    if (scan == DD_ONE(dd)) {
-	Cudd_Deref(res);
-	return(res);
-    } else {
-	Cudd_RecursiveDeref(dd,res);
-	return(NULL);
     }
+    FREE(indices);
+    Cudd_Deref(res);
+    return(res);
 
 } /* end of cuddBddMakePrime */
 
-- 
2.43.0


From 854c30c18da486b448074ffe9bcf2c8840ef6384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 42/88] fix: Cudd_EpdCountMinterm reported a non-zero number of
 minterms for the constant zero

---
 lib/cudd-3.0.0/cudd/cuddUtil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddUtil.c b/lib/cudd-3.0.0/cudd/cuddUtil.c
index facaf48..11e7427 100644
--- a/lib/cudd-3.0.0/cudd/cuddUtil.c
+++ b/lib/cudd-3.0.0/cudd/cuddUtil.c
@@ -680,6 +680,11 @@ Cudd_EpdCountMinterm(
     st_table	*table;
     int		status;
 
+    /* The difference of equal numbers is not normalized to zero. */
+    if (node == Cudd_Not(DD_ONE(manager))) {
+	EpdMakeZero(epd, 0);
+	return(0);
+    }
     EpdPow2(nvars, &max);
     table = st_init_table(st_ptrcmp, st_ptrhash);
     if (table == NULL) {
-- 
2.43.0


From a8d0c974bbffb65bc6d3a82dccdcdc449b101170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 43/88] fix: Cudd_SolveEqn leaked the components found before a
 reordering

---
 lib/cudd-3.0.0/cudd/cuddSolve.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddSolve.c b/lib/cudd-3.0.0/cudd/cuddSolve.c
index c1af278..fb84246 100644
--- a/lib/cudd-3.0.0/cudd/cuddSolve.c
+++ b/lib/cudd-3.0.0/cudd/cuddSolve.c
@@ -111,6 +111,7 @@ Cudd_SolveEqn(
 {
     DdNode *res;
     int *temp;
+    int i;
 
     *yIndex = temp = ALLOC(int, n);
     if (temp == NULL) {
@@ -120,8 +121,18 @@ Cudd_SolveEqn(
 	return(NULL);
     }
 
+    for (i = 0; i < n; i++) {
+	G[i] = NULL;
+    }
     do {
 	bdd->reordered = 0;
+	/* Release the components found before reordering took place. */
+	for (i = 0; i < n; i++) {
+	    if (G[i] != NULL) {
+		Cudd_RecursiveDeref(bdd, G[i]);
+		G[i] = NULL;
+	    }
+	}
 	res = cuddSolveEqnRecur(bdd, F, Y, G, n, temp, 0);
     } while (bdd->reordered == 1);
     if (bdd->errorCode == CUDD_TIMEOUT_EXPIRED && bdd->timeoutHandler) {
-- 
2.43.0


From 5086862c7e86ed8d7982ffdee452ba127d22dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 44/88] fix: Cudd_CofMinterm read past the end of the array of
 a constant

---
 lib/cudd-3.0.0/cudd/cuddSign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddSign.c b/lib/cudd-3.0.0/cudd/cuddSign.c
index e2d50f8..63ffb2a 100644
--- a/lib/cudd-3.0.0/cudd/cuddSign.c
+++ b/lib/cudd-3.0.0/cudd/cuddSign.c
@@ -127,7 +127,7 @@ Cudd_CofMinterm(
 	result = ALLOC(double,size + 1);
 	if (result != NULL) {
 	    if (Cudd_IsConstantInt(node))
-		firstLevel = 1;
+		firstLevel = size;
 	    else
 		firstLevel = cuddI(dd,Cudd_Regular(node)->index);
 	    for (i = 0; i < size; i++) {
-- 
2.43.0


From 80c227c8818727a6eda2dfaa36d00730a05176ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 45/88] fix: cuddUniqueConst returned a tiny constant left over
 from minterm counting instead of zero

---
 lib/cudd-3.0.0/cudd/cuddTable.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddTable.c b/lib/cudd-3.0.0/cudd/cuddTable.c
index a627574..d6c2b80 100644
--- a/lib/cudd-3.0.0/cudd/cuddTable.c
+++ b/lib/cudd-3.0.0/cudd/cuddTable.c
@@ -1553,6 +1553,14 @@ cuddUniqueConst(
      * infinite, since Infinity - Infinity is NaN and NaN < X is 0 for
      * every X.
      */
+    /* A constant that is exactly equal takes precedence over constants that
+     * only differ by less than epsilon. Both can be in the same chain, as
+     * Cudd_CountMinterm creates very small constants.
+     */
+    while (looking != NULL && looking->type.value != value) {
+	looking = looking->next;
+    }
+    if (looking == NULL) looking = nodelist[pos];
     while (looking != NULL) {
 	if (looking->type.value == value ||
 	ddEqualVal(looking->type.value,value,unique->epsilon)) {
-- 
2.43.0


From 88c9bb894e5dec0a055d1f846fc508e0ee61ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 46/88] fix: Cudd_MinHammingDist reused distances that were cut
 off at a smaller bound

---
 lib/cudd-3.0.0/cudd/cuddPriority.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddPriority.c b/lib/cudd-3.0.0/cudd/cuddPriority.c
index dfb530f..723ccbe 100644
--- a/lib/cudd-3.0.0/cudd/cuddPriority.c
+++ b/lib/cudd-3.0.0/cudd/cuddPriority.c
@@ -1853,7 +1853,7 @@ cuddMinHammingDistRecur(
 	    dd->dead++;
 	    dd->constants.dead++;
 	}
-	return((int) h);
+	return((int) ddMin(h, upperBound));
     }
 
     Ft = cuddT(F); Fe = cuddE(F);
@@ -1875,7 +1875,8 @@ cuddMinHammingDistRecur(
     }
     h = ddMin(hT, hE + 1);
 
-    if (F->ref != 1) {
+    /* A distance that reaches the bound may be larger: do not keep it. */
+    if (F->ref != 1 && h < upperBound) {
 	ptrint fanout = (ptrint) F->ref;
 	cuddSatDec(fanout);
 	res = cuddUniqueConst(dd, (CUDD_VALUE_TYPE) h);
-- 
2.43.0


From 6bc696fa541359ab0b4876ce91a492db908ca093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 47/88] fix: Cudd_addResidue ignored the option for two's
 complement numbers

---
 lib/cudd-3.0.0/cudd/cuddAddWalsh.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddAddWalsh.c b/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
index 789341d..63f3153 100644
--- a/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -193,6 +193,10 @@ Cudd_addResidue(
 	/* Choose current and previous arrays. */
 	thisOne = k & 1;
 	previous = thisOne ^ 1;
+	/* Adjust residue for MSB, if this is a two's complement number. */
+	if (tc && (k == n - 1)) {
+	    residue = (m - residue) % m;
+	}
 	/* Build an ADD projection function. */
 	if (msbLsb) {
 	    index = top+n-k-1;
@@ -233,10 +237,6 @@ Cudd_addResidue(
 	Cudd_RecursiveDeref(dd,var);
 	/* Update residue of 2**k. */
 	residue = (2 * residue) % m;
-	/* Adjust residue for MSB, if this is a two's complement number. */
-	if (tc && (k == n - 1)) {
-	    residue = (m - residue) % m;
-	}
     }
 
     /* We are only interested in the 0-residue node of the top layer. */
-- 
2.43.0


From 3528ef8a87cfb6cdec571cfdc2687ab19d5f820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 48/88] fix: Cudd_addApply kept going after a reordering had
 interrupted Cudd_addMinus

---
 lib/cudd-3.0.0/cudd/cuddAddApply.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddAddApply.c b/lib/cudd-3.0.0/cudd/cuddAddApply.c
index 3800638..d64ab53 100644
--- a/lib/cudd-3.0.0/cudd/cuddAddApply.c
+++ b/lib/cudd-3.0.0/cudd/cuddAddApply.c
@@ -769,6 +769,8 @@ cuddAddApplyRecur(
     statLine(dd);
     res = (*op)(dd,&f,&g);
     if (res != NULL) return(res);
+    /* Op may also have failed, because of a reordering. */
+    if (dd->reordered) return(NULL);
 
     /* Check cache. */
     cacheOp = (DD_CTFP) op;
-- 
2.43.0


From 0e837cef512f84b9b6720e8c2e6b2042179164d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 49/88] fix: Cudd_addPermute leaked references when reordering
 interrupted it

---
 lib/cudd-3.0.0/cudd/cuddCompose.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddCompose.c b/lib/cudd-3.0.0/cudd/cuddCompose.c
index cdcb5a6..e5c5f50 100644
--- a/lib/cudd-3.0.0/cudd/cuddCompose.c
+++ b/lib/cudd-3.0.0/cudd/cuddCompose.c
@@ -1074,7 +1074,11 @@ cuddAddPermuteRecur(
     */
     index = permut[node->index];
     var = cuddUniqueInter(manager,index,DD_ONE(manager),DD_ZERO(manager));
-    if (var == NULL) return(NULL);
+    if (var == NULL) {
+	Cudd_RecursiveDeref(manager, T);
+	Cudd_RecursiveDeref(manager, E);
+	return(NULL);
+    }
     cuddRef(var);
     res = cuddAddIteRecur(manager,var,T,E);
     if (res == NULL) {
-- 
2.43.0


From aac8d69b68b84ae1aa27c644c9ed387c786135ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 50/88] fix: Cudd_addResidue failed when reordering interrupted
 it

---
 lib/cudd-3.0.0/cudd/cuddAddWalsh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddAddWalsh.c b/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
index 63f3153..025a39f 100644
--- a/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -203,7 +203,7 @@ Cudd_addResidue(
 	} else {
 	    index = top+k;
 	}
-	var = cuddUniqueInter(dd,index,DD_ONE(dd),DD_ZERO(dd));
+	var = Cudd_addIthVar(dd,index);
 	if (var == NULL) {
 	    for (j = 0; j < m; j++) {
 		Cudd_RecursiveDeref(dd,array[previous][j]);
-- 
2.43.0


From e64780d72f8a3b71dbfb846f34f01b4378d7f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 51/88] fix: Cudd_addOuterSum computed wrong results when
 reordering changed the variable order

---
 lib/cudd-3.0.0/cudd/cuddMatMult.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddMatMult.c b/lib/cudd-3.0.0/cudd/cuddMatMult.c
index 2b1e547..bb69fc0 100644
--- a/lib/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/lib/cudd-3.0.0/cudd/cuddMatMult.c
@@ -643,7 +643,11 @@ cuddAddOuterSumRecur(
 		return(M);
 	    }
 	} else {
-	    P = Cudd_addApply(dd,Cudd_addMinimum,R,M);
+	    P = cuddAddApplyRecur(dd,Cudd_addMinimum,R,M);
+	    if (P == NULL) {
+	        Cudd_RecursiveDeref(dd,R);
+	        return(NULL);
+	    }
 	    cuddRef(P);
 	    Cudd_RecursiveDeref(dd,R);
 	    cuddDeref(P);
-- 
2.43.0


From ebc666b8b7fb4d10e7b2753d4f63301549fbd907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 52/88] fix: Cudd_EqualSupNorm reused the results of
 comparisons with a larger tolerance

---
 lib/cudd-3.0.0/cudd/cuddSat.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddSat.c b/lib/cudd-3.0.0/cudd/cuddSat.c
index fd54089..74e52e7 100644
--- a/lib/cudd-3.0.0/cudd/cuddSat.c
+++ b/lib/cudd-3.0.0/cudd/cuddSat.c
@@ -794,10 +794,15 @@ Cudd_EqualSupNorm(
     }
 
     /* We only insert the result in the cache if the comparison is
-    ** successful. Therefore, if we hit we return 1. */
+    ** successful. The entry is the tolerance of that comparison.
+    ** Therefore, if we hit and ours is not smaller we return 1. */
     r = cuddCacheLookup2(dd,(DD_CTFP)Cudd_EqualSupNorm,f,g);
     if (r != NULL) {
-	return(1);
+	if (r->ref == 0) {
+	    dd->dead++;
+	    dd->constants.dead++;
+	}
+	if (cuddV(r) <= tolerance) return(1);
     }
 
     /* Compute the cofactors and solve the recursive subproblems. */
@@ -810,7 +815,12 @@ Cudd_EqualSupNorm(
     if (!Cudd_EqualSupNorm(dd,fv,gv,tolerance,pr)) return(0);
     if (!Cudd_EqualSupNorm(dd,fvn,gvn,tolerance,pr)) return(0);
 
-    cuddCacheInsert2(dd,(DD_CTFP)Cudd_EqualSupNorm,f,g,DD_ONE(dd));
+    r = cuddUniqueConst(dd,tolerance);
+    if (r != NULL) {
+	cuddRef(r);
+	cuddCacheInsert2(dd,(DD_CTFP)Cudd_EqualSupNorm,f,g,r);
+	Cudd_RecursiveDeref(dd,r);
+    }
 
     return(1);
 
-- 
2.43.0


From e95aad23292c2684680370fe2aeb87df97fe1a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 53/88] fix: Cudd_zddIthVar read past the end of the universe
 after the ZDD variables had been reordered

---
 lib/cudd-3.0.0/cudd/cuddAPI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddAPI.c b/lib/cudd-3.0.0/cudd/cuddAPI.c
index fcc5eb0..43d686d 100644
--- a/lib/cudd-3.0.0/cudd/cuddAPI.c
+++ b/lib/cudd-3.0.0/cudd/cuddAPI.c
@@ -353,7 +353,7 @@ Cudd_zddIthVar(
     */
 
     /* First we build the node at the level of index i. */
-    lower = (i < dd->sizeZ - 1) ? dd->univ[dd->permZ[i]+1] : DD_ONE(dd);
+    lower = (i < dd->sizeZ && dd->permZ[i] < dd->sizeZ - 1) ? dd->univ[dd->permZ[i]+1] : DD_ONE(dd);
     do {
 	dd->reordered = 0;
 	zvar = cuddUniqueInterZdd(dd, i, lower, DD_ZERO(dd));
-- 
2.43.0


From 032bd245230e090945c1075981c8cb24b0da49ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 54/88] fix: ZDD division lost track of the references of a
 cofactor

---
 lib/cudd-3.0.0/cudd/cuddZddFuncs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
index 5f6d63c..6cf20cd 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1444,11 +1444,13 @@ cuddZddGetCofactors2(
     *f1 = cuddZddSubset1(dd, f, v);
     if (*f1 == NULL)
 	return(1);
+    Cudd_Ref(*f1);
     *f0 = cuddZddSubset0(dd, f, v);
     if (*f0 == NULL) {
 	Cudd_RecursiveDerefZdd(dd, *f1);
 	return(1);
     }
+    Cudd_Deref(*f1);
     return(0);
 
 } /* end of cuddZddGetCofactors2 */
-- 
2.43.0


From 9c1cdefedfd71340dd185ce8be12dd5ab7f57030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 55/88] fix: operations failed when automatic reordering was
 due with fewer than ten nodes

---
 lib/cudd-3.0.0/cudd/cuddTable.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddTable.c b/lib/cudd-3.0.0/cudd/cuddTable.c
index d6c2b80..456b230 100644
--- a/lib/cudd-3.0.0/cudd/cuddTable.c
+++ b/lib/cudd-3.0.0/cudd/cuddTable.c
@@ -52,6 +52,9 @@
 /*---------------------------------------------------------------------------*/
 
 #ifndef DD_UNSORTED_FREE_LIST
+/* Fewer nodes than this are never reordered automatically. */
+#define DD_MIN_REORDER 10
+
 #ifdef DD_RED_BLACK_FREE_LIST
 /* Constants for red/black trees. */
 #define DD_STACK_SIZE 128
@@ -1187,6 +1190,7 @@ cuddUniqueInter(
     /* countDead is 0 if deads should be counted and ~0 if they should not. */
     if (unique->autoDyn &&
         unique->keys - (unique->dead & unique->countDead) >= unique->nextDyn &&
+        unique->keys - unique->dead >= DD_MIN_REORDER &&
         unique->maxReorderings > 0) {
         unsigned long cpuTime;
 #ifdef DD_DEBUG
@@ -1195,7 +1199,7 @@ cuddUniqueInter(
 	retval = Cudd_CheckKeys(unique);
 	if (retval != 0) return(NULL);
 #endif
-	retval = Cudd_ReduceHeap(unique,unique->autoMethod,10); /* 10 = whatever */
+	retval = Cudd_ReduceHeap(unique,unique->autoMethod,DD_MIN_REORDER);
         unique->maxReorderings--;
 	if (retval == 0) {
             unique->reordered = 2;
@@ -1448,14 +1452,15 @@ cuddUniqueInterZdd(
 
     /* countDead is 0 if deads should be counted and ~0 if they should not. */
     if (unique->autoDynZ &&
-        unique->keysZ - (unique->deadZ & unique->countDead) >= unique->nextDyn) {
+        unique->keysZ - (unique->deadZ & unique->countDead) >= unique->nextDyn &&
+        unique->keysZ - unique->deadZ >= DD_MIN_REORDER) {
 #ifdef DD_DEBUG
 	retval = Cudd_DebugCheck(unique);
 	if (retval != 0) return(NULL);
 	retval = Cudd_CheckKeys(unique);
 	if (retval != 0) return(NULL);
 #endif
-	retval = Cudd_zddReduceHeap(unique,unique->autoMethodZ,10); /* 10 = whatever */
+	retval = Cudd_zddReduceHeap(unique,unique->autoMethodZ,DD_MIN_REORDER);
 	if (retval == 0) {
             unique->reordered = 2;
         } else if (unique->terminationCallback != NULL &&
-- 
2.43.0


From 789eb143d9a1bc5cb72b5883e382c55f8fb00229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 56/88] fix: Cudd_zddIthVar returned wrong families when
 automatic reordering changed the order of the ZDD variables

---
 lib/cudd-3.0.0/cudd/cuddAPI.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddAPI.c b/lib/cudd-3.0.0/cudd/cuddAPI.c
index 43d686d..967a74f 100644
--- a/lib/cudd-3.0.0/cudd/cuddAPI.c
+++ b/lib/cudd-3.0.0/cudd/cuddAPI.c
@@ -340,7 +340,7 @@ Cudd_zddIthVar(
     DdNode *res;
     DdNode *zvar;
     DdNode *lower;
-    int j;
+    int j, autoDynZ;
 
     if ((unsigned int) i >= CUDD_MAXINDEX - 1) {
         dd->errorCode = CUDD_INVALID_ARG;
@@ -352,12 +352,17 @@ Cudd_zddIthVar(
     ** Above that level there are nodes with identical children.
     */
 
+    /* The order must not change while we go from level to level. */
+    autoDynZ = dd->autoDynZ;
+    dd->autoDynZ = 0;
+
     /* First we build the node at the level of index i. */
     lower = (i < dd->sizeZ && dd->permZ[i] < dd->sizeZ - 1) ? dd->univ[dd->permZ[i]+1] : DD_ONE(dd);
     do {
 	dd->reordered = 0;
 	zvar = cuddUniqueInterZdd(dd, i, lower, DD_ZERO(dd));
     } while (dd->reordered == 1);
+    if (zvar == NULL) dd->autoDynZ = autoDynZ;
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
     }
@@ -373,6 +378,7 @@ Cudd_zddIthVar(
 	    res = cuddUniqueInterZdd(dd, dd->invpermZ[j], zvar, zvar);
 	} while (dd->reordered == 1);
 	if (res == NULL) {
+	    dd->autoDynZ = autoDynZ;
 	    Cudd_RecursiveDerefZdd(dd,zvar);
             if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
                 dd->timeoutHandler(dd, dd->tohArg);
@@ -383,6 +389,7 @@ Cudd_zddIthVar(
 	Cudd_RecursiveDerefZdd(dd,zvar);
 	zvar = res;
     }
+    dd->autoDynZ = autoDynZ;
     cuddDeref(zvar);
     return(zvar);
 
-- 
2.43.0


From 31ae6e09de23427e230974bf552db6f9a7405fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 57/88] fix: Cudd_zddDiffConst crashed when its result was
 still in the cache

---
 lib/cudd-3.0.0/cudd/cuddCache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddCache.c b/lib/cudd-3.0.0/cudd/cuddCache.c
index 010e486..75d04e7 100644
--- a/lib/cudd-3.0.0/cudd/cuddCache.c
+++ b/lib/cudd-3.0.0/cudd/cuddCache.c
@@ -555,7 +555,8 @@ cuddCacheLookup2Zdd(
     if (en->data != NULL && en->f==f && en->g==g && en->h==(ptruint)op) {
 	data = Cudd_Regular(en->data);
 	table->cacheHits++;
-	if (data->ref == 0) {
+	/* Cudd_zddDiffConst stores DD_NON_CONSTANT, which is not a node. */
+	if (en->data != DD_NON_CONSTANT && data->ref == 0) {
 	    cuddReclaimZdd(table,data);
 	}
 	return(en->data);
-- 
2.43.0


From 2e6b857009520ce309efa95bbe2a446d590bb0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 58/88] fix: ZDD division leaked references when reordering
 interrupted it

---
 lib/cudd-3.0.0/cudd/cuddZddFuncs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
index 6cf20cd..62b4043 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1167,6 +1167,7 @@ cuddZddDivide(
 	q = cuddZddDivide(dd, f0, g0);
 	if (q == NULL) {
 	    Cudd_RecursiveDerefZdd(dd, f1);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
@@ -1179,6 +1180,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    Cudd_RecursiveDerefZdd(dd, q);
 	    return(NULL);
 	}
@@ -1264,6 +1266,7 @@ cuddZddDivideF(
 	q = cuddZddDivideF(dd, f0, g0);
 	if (q == NULL) {
 	    Cudd_RecursiveDerefZdd(dd, f1);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
@@ -1276,6 +1279,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    Cudd_RecursiveDerefZdd(dd, q);
 	    return(NULL);
 	}
-- 
2.43.0


From e82a0c26315d891edc6910b7fc9ebb9c056c9443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 59/88] fix: ZDD weak division leaked references when
 reordering interrupted it

---
 lib/cudd-3.0.0/cudd/cuddZddFuncs.c | 62 ++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
index 62b4043..0d30ed1 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -794,9 +794,9 @@ cuddZddWeakDiv(
     }
 
     if (g1 != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDiv(dd, f1, g1);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, fd);
@@ -806,17 +806,23 @@ cuddZddWeakDiv(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, f1);
 	Cudd_RecursiveDerefZdd(dd, g1);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
+	}
 	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
+		Cudd_RecursiveDerefZdd(dd, tmp);
 		Cudd_RecursiveDerefZdd(dd, fd);
 		Cudd_RecursiveDerefZdd(dd, gd);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -833,9 +839,9 @@ cuddZddWeakDiv(
     }
 
     if (gd != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDiv(dd, fd, gd);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
 	    return(NULL);
@@ -843,16 +849,21 @@ cuddZddWeakDiv(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, fd);
 	Cudd_RecursiveDerefZdd(dd, gd);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
+	}
 	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
 		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1029,9 +1040,9 @@ cuddZddWeakDivF(
     }
 
     if (g1 != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDivF(dd, f1, g1);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, fd);
@@ -1041,17 +1052,23 @@ cuddZddWeakDivF(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, f1);
 	Cudd_RecursiveDerefZdd(dd, g1);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
+	}
 	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
+		Cudd_RecursiveDerefZdd(dd, tmp);
 		Cudd_RecursiveDerefZdd(dd, fd);
 		Cudd_RecursiveDerefZdd(dd, gd);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1068,9 +1085,9 @@ cuddZddWeakDivF(
     }
 
     if (gd != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDivF(dd, fd, gd);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
 	    return(NULL);
@@ -1078,16 +1095,21 @@ cuddZddWeakDivF(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, fd);
 	Cudd_RecursiveDerefZdd(dd, gd);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
+	}
 	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
 		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
-- 
2.43.0


From f38fac7c4d9355ac6b0d614c2a0a48b1a730e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 60/88] fix: Cudd_addMatrixMultiply reused results for other
 summation variables

---
 lib/cudd-3.0.0/cudd/cuddInt.h     |  1 +
 lib/cudd-3.0.0/cudd/cuddMatMult.c | 30 ++++++++++++++++++++----------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddInt.h b/lib/cudd-3.0.0/cudd/cuddInt.h
index a200b25..fa50051 100644
--- a/lib/cudd-3.0.0/cudd/cuddInt.h
+++ b/lib/cudd-3.0.0/cudd/cuddInt.h
@@ -157,6 +157,7 @@
 #define DD_BDD_MAX_EXP_TAG			0x8a
 #define DD_VARS_SYMM_BEFORE_TAG			0x8e
 #define DD_VARS_SYMM_BETWEEN_TAG		0xa2
+#define DD_ADD_MATRIX_MULTIPLY_TAG		0xa6
 
 /* Generator constants. */
 #define CUDD_GEN_CUBES 0
diff --git a/lib/cudd-3.0.0/cudd/cuddMatMult.c b/lib/cudd-3.0.0/cudd/cuddMatMult.c
index bb69fc0..7fb6738 100644
--- a/lib/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/lib/cudd-3.0.0/cudd/cuddMatMult.c
@@ -77,7 +77,7 @@
 /* Static function prototypes                                                */
 /*---------------------------------------------------------------------------*/
 
-static DdNode * addMMRecur (DdManager *dd, DdNode *A, DdNode *B, int topP, int *vars);
+static DdNode * addMMRecur (DdManager *dd, DdNode *A, DdNode *B, int topP, int *vars, DdNode *cube);
 static DdNode * addTriangleRecur (DdManager *dd, DdNode *f, DdNode *g, int *vars, DdNode *cube);
 static DdNode * cuddAddOuterSumRecur (DdManager *dd, DdNode *M, DdNode *r, DdNode *c);
 
@@ -115,7 +115,7 @@ Cudd_addMatrixMultiply(
   int  nz)
 {
     int i, nvars, *vars;
-    DdNode *res; 
+    DdNode *res, *cube;
 
     /* Array vars says what variables are "summation" variables. */
     nvars = dd->size;
@@ -131,10 +131,21 @@ Cudd_addMatrixMultiply(
         vars[z[i]->index] = 1;
     }
 
+    /* The cube of the summation variables is part of the cache keys. */
+    cube = Cudd_addComputeCube(dd,z,NULL,nz);
+    if (cube == NULL) {
+	FREE(vars);
+	return(NULL);
+    }
+    cuddRef(cube);
+
     do {
 	dd->reordered = 0;
-	res = addMMRecur(dd,A,B,-1,vars);
+	res = addMMRecur(dd,A,B,-1,vars,cube);
     } while (dd->reordered == 1);
+    if (res != NULL) cuddRef(res);
+    Cudd_RecursiveDeref(dd,cube);
+    if (res != NULL) cuddDeref(res);
     FREE(vars);
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
@@ -318,7 +329,8 @@ addMMRecur(
   DdNode * A,
   DdNode * B,
   int  topP,
-  int * vars)
+  int * vars,
+  DdNode * cube)
 {
     DdNode *zero,
            *At,		/* positive cofactor of first operand */
@@ -335,7 +347,6 @@ addMMRecur(
     int index;		/* index of the top variable */
     CUDD_VALUE_TYPE value;
     int topA, topB, topV;
-    DD_CTFP cacheOp;
 
     statLine(dd);
     zero = DD_ZERO(dd);
@@ -376,8 +387,7 @@ addMMRecur(
     topA = cuddI(dd,A->index); topB = cuddI(dd,B->index);
     topV = ddMin(topA,topB);
 
-    cacheOp = (DD_CTFP) addMMRecur;
-    res = cuddCacheLookup2(dd,cacheOp,A,B);
+    res = cuddCacheLookup(dd,DD_ADD_MATRIX_MULTIPLY_TAG,A,B,cube);
     if (res != NULL) {
 	/* If the result is 0, there is no need to normalize.
 	** Otherwise we count the number of z variables between
@@ -433,10 +443,10 @@ addMMRecur(
 	Bt = Be = B;
     }
 
-    t = addMMRecur(dd, At, Bt, (int)topV, vars);
+    t = addMMRecur(dd, At, Bt, (int)topV, vars, cube);
     if (t == NULL) return(NULL);
     cuddRef(t);
-    e = addMMRecur(dd, Ae, Be, (int)topV, vars);
+    e = addMMRecur(dd, Ae, Be, (int)topV, vars, cube);
     if (e == NULL) {
 	Cudd_RecursiveDeref(dd, t);
 	return(NULL);
@@ -473,7 +483,7 @@ addMMRecur(
 	Cudd_RecursiveDeref(dd, e);
     }
 
-    cuddCacheInsert2(dd,cacheOp,A,B,res);
+    cuddCacheInsert(dd,DD_ADD_MATRIX_MULTIPLY_TAG,A,B,cube,res);
 
     /* We have computed (and stored in the computed table) a minimal
     ** result; that is, a result that assumes no summation variables
-- 
2.43.0


From e543757109fed563969e6c51a4ead707bf2f5cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 61/88] fix: Cudd_zddDiffConst left references behind when it
 discarded a cached result

---
 lib/cudd-3.0.0/cudd/cuddZddSetop.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddSetop.c b/lib/cudd-3.0.0/cudd/cuddZddSetop.c
index 18172b8..8b00dac 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddSetop.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddSetop.c
@@ -250,9 +250,14 @@ Cudd_zddDiffConst(
 	res = Cudd_zddDiffConst(zdd, P, cuddE(Q));
     } else {
 	t = Cudd_zddDiffConst(zdd, cuddT(P), cuddT(Q));
-	if (t != empty)
+	if (t != empty) {
+	    /* The cache may have resurrected t: release it again. */
+	    if (t != DD_NON_CONSTANT) {
+		cuddRef(t);
+		Cudd_RecursiveDerefZdd(zdd, t);
+	    }
 	    res = DD_NON_CONSTANT;
-	else
+	} else
 	    res = Cudd_zddDiffConst(zdd, cuddE(P), cuddE(Q));
     }
 
-- 
2.43.0


From cfd737e801393ad262ad6f167952c1ee92b907ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 62/88] fix: exact reordering read and wrote outside its arrays
 when some variables were unused

---
 lib/cudd-3.0.0/cudd/cuddExact.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddExact.c b/lib/cudd-3.0.0/cudd/cuddExact.c
index 0e07eb2..1cac729 100644
--- a/lib/cudd-3.0.0/cudd/cuddExact.c
+++ b/lib/cudd-3.0.0/cudd/cuddExact.c
@@ -120,7 +120,7 @@ cuddExact(
     int maxBinomial, oldSubsets, newSubsets;
     int subsetCost;
     int size;			/* number of variables to be reordered */
-    int unused, nvars, level, result;
+    int nvars, level, result;
     int upperBound, lowerBound, cost;
     int roots;
     char *mask = NULL;
@@ -163,17 +163,9 @@ cuddExact(
     /* Initialization. */
     nvars = table->size;
     size = upper - lower + 1;
-    /* Count unused variable among those to be reordered.  This is only
-    ** used to compute maxBinomial. */
-    unused = 0;
-    for (i = lower + 1; i < upper; i++) {
-	if (table->subtables[i].keys == 1 &&
-	    table->vars[table->invperm[i]]->ref == 1)
-	    unused++;
-    }
 
     /* Find the maximum number of subsets we may have to store. */
-    maxBinomial = getMaxBinomial(size - unused);
+    maxBinomial = getMaxBinomial(size);
     if (maxBinomial == -1) goto cuddExactOutOfMem;
 
     newOrder = getMatrix(maxBinomial, size);
@@ -238,7 +230,7 @@ cuddExact(
 	    /* For each top bottom variable. */
 	    for (j = level; j >= 0; j--) {
 		/* Skip unused variables. */
-		if (table->subtables[j+lower-1].keys == 1 &&
+		if (j > 0 && table->subtables[j+lower-1].keys == 1 &&
 		    table->vars[table->invperm[j+lower-1]]->ref == 1) continue;
 		/* Find cost under this order. */
 		subsetCost = cost + getLevelKeys(table, lower + level);
-- 
2.43.0


From 7b1b3d34dfc8da2bbe12fa523b5860d983aebb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 63/88] fix: findMinimalUnrealizableCore.py called slugs with
 an option that does not exist any more

---
 tools/findMinimalUnrealizableCore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/findMinimalUnrealizableCore.py b/tools/findMinimalUnrealizableCore.py
index 94e7cdc..867c48e 100755
--- a/tools/findMinimalUnrealizableCore.py
+++ b/tools/findMinimalUnrealizableCore.py
@@ -20,7 +20,7 @@ def isRealizable():
     # =====================================================
     # Slugs
     # =====================================================
-    command = slugsExecutableAndBasicOptions + " --onlyRealizability /tmp/core.slugsin 2> "+slugsReturnFile
+    command = slugsExecutableAndBasicOptions + " /tmp/core.slugsin 2> "+slugsReturnFile
     retValue = os.system(command)
     if (retValue!=0):
         print >>sys.stderr, "Slugs failed!"
-- 
2.43.0


From 4442a5de6dfa24f7b12246761fc3da46df3f87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 64/88] fix: multiDimensionalRealizabilitySearch.py repeated a
 failing call of the script forever

---
 tools/multiDimensionalRealizabilitySearch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/multiDimensionalRealizabilitySearch.py b/tools/multiDimensionalRealizabilitySearch.py
index e7b1b51..9960d5b 100755
--- a/tools/multiDimensionalRealizabilitySearch.py
+++ b/tools/multiDimensionalRealizabilitySearch.py
@@ -168,7 +168,8 @@ def runSearch(scriptName, oldParameterTypes):
             negativePoints.append(bestTuple)
             print "No, after %f seconds" % totalTime
         else:
-            print >>sys.stderr, "Error: Could not obtain a result from the called script."            
+            print >>sys.stderr, "Error: Could not obtain a result from the called script:\n"+result
+            sys.exit(1)
             
             
 
-- 
2.43.0


From 7c95a352ee40fcec5fc65059f9dcdb628dbfaaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 65/88] fix: random-pivot reordering of a group of variables
 also moved variables outside the group

---
 lib/cudd-3.0.0/cudd/cuddReorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddReorder.c b/lib/cudd-3.0.0/cudd/cuddReorder.c
index 267cc54..c777ac2 100644
--- a/lib/cudd-3.0.0/cudd/cuddReorder.c
+++ b/lib/cudd-3.0.0/cudd/cuddReorder.c
@@ -602,7 +602,7 @@ cuddSwapping(
 		x = lower;
 	    } else{
 		do {
-		    x = (int) Cudd_Random(table) % modulo;
+		    x = lower + ((int) Cudd_Random(table) % modulo);
 		} while (x == y);
 	    }
 	} else {
-- 
2.43.0


From bcd85b1461cfaea87d37b5eab15fb9e3f4407bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 66/88] fix: exact reordering took its lower bound from the
 wrong variable order and missed the optimum

---
 lib/cudd-3.0.0/cudd/cuddExact.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddExact.c b/lib/cudd-3.0.0/cudd/cuddExact.c
index 1cac729..4ad0b1b 100644
--- a/lib/cudd-3.0.0/cudd/cuddExact.c
+++ b/lib/cudd-3.0.0/cudd/cuddExact.c
@@ -219,14 +219,14 @@ cuddExact(
 	for (i = 0; i < oldSubsets; i++) { /* for each subset of size k-1 */
 	    order = oldOrder[i];
 	    cost = oldCost[i];
+	    /* Impose new order. The lower bound refers to it. */
+	    result = ddShuffle(table, order, lower, upper);
+	    if (result == 0) goto cuddExactOutOfMem;
+	    upperBound = updateUB(table,upperBound,bestOrder,lower,upper);
 	    lowerBound = computeLB(table, order, roots, cost, lower, upper,
 				   level);
 	    if (lowerBound >= upperBound)
 		continue;
-	    /* Impose new order. */
-	    result = ddShuffle(table, order, lower, upper);
-	    if (result == 0) goto cuddExactOutOfMem;
-	    upperBound = updateUB(table,upperBound,bestOrder,lower,upper);
 	    /* For each top bottom variable. */
 	    for (j = level; j >= 0; j--) {
 		/* Skip unused variables. */
-- 
2.43.0


From 4b953dc023c41e9685a5a3a5b7b81411536f0833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 67/88] fix: loading a binary DDDMP file released the constant
 node once too often

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index 4112af1..9229605 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -972,6 +972,7 @@ DddmpCuddDdArrayLoad (
         case DDDMP_TERMINAL:     
           /* only 1 terminal presently supported */    
           pnodes[i] = Cudd_ReadOne (ddMgr);       
+          Cudd_Ref (pnodes[i]);
           continue; 
           break;
         case DDDMP_RELATIVE_1:
-- 
2.43.0


From 2347a369531ae7d544833f6569cc46d865b7cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 68/88] fix: loading a DDDMP file ignored the requested order
 of the roots

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index 9229605..cd7e91c 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -1152,7 +1152,7 @@ DddmpCuddDdArrayLoad (
         break;
     }
 
-    id = Hdr->rootids[i];
+    id = (j<nRoots) ? Hdr->rootids[j] : 0;
     if (id==0) {
       (void) fprintf (stderr, "DdLoad Warning: NULL root found in file\n");
       fflush (stderr);
@@ -1166,7 +1166,7 @@ DddmpCuddDdArrayLoad (
     }
     proots[i] = f;
 
-    cuddRef (f);
+    if (f != NULL) cuddRef (f);
   } /* end for i = 0..nRoots */
 
   /*
-- 
2.43.0


From 01b33ba497e8e913cb0703161a61562533a9c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 69/88] fix: CNF export mistook the literal of the variable
 with CNF number 1 for the constant

---
 lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c b/lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c
index 0806da0..86c2462 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c
@@ -969,18 +969,23 @@ StoreCnfOneNode (
 {
   int retValue = 0;
   int idfAbs, idTAbs, idEAbs;
+  int constT, constE;
 
   idfAbs = abs (idf);
   idTAbs = abs (idT);
   idEAbs = abs (idE);
 
+  /* The id of the constant may also be the id of a variable */
+  constT = Cudd_IsConstant (cuddT (f));
+  constE = Cudd_IsConstant (Cudd_Regular (cuddE (f)));
+
   /*----------------------------- Check for Constant ------------------------*/
 
   assert(!Cudd_IsConstant(f));
 
   /*------------------------- Check for terminal nodes ----------------------*/
 
-  if ((idTAbs==1) && (idEAbs==1)) { 
+  if (constT && constE) { 
     return (1);
   }
 
@@ -995,7 +1000,7 @@ StoreCnfOneNode (
    *  Then to terminal
    */
 
-  if ((idTAbs==1) && (idEAbs!=1)) {
+  if (constT && !constE) {
 #if DDDMP_DEBUG_CNF
     retValue = fprintf (fp, "CASE 1 -->\n");
 #endif
@@ -1016,7 +1021,7 @@ StoreCnfOneNode (
    *  Else to terminal
    */
 
-  if ((idTAbs!=1) && (idEAbs==1)) {
+  if (!constT && constE) {
     if (idE == 1) {
 #if DDDMP_DEBUG_CNF
       retValue = fprintf (fp, "CASE 2 -->\n");
@@ -1050,7 +1055,7 @@ StoreCnfOneNode (
    *  Nor Then or Else to terminal
    */
 
-  if ((idTAbs!=1) && (idEAbs!=1)) {
+  if (!constT && !constE) {
 #if DDDMP_DEBUG_CNF
     retValue = fprintf (fp, "CASE 4 -->\n");
 #endif
-- 
2.43.0


From 9ee5e3a7baa12e3791d604a80196fb80435a54d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 70/88] fix: storing a decision diagram cut the unique table of
 the constants

---
 lib/cudd-3.0.0/dddmp/dddmpInt.h     |   2 +
 lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c |  13 ++--
 lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c |  13 ++--
 lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c |  13 ++--
 lib/cudd-3.0.0/dddmp/dddmpUtil.c    | 101 ++++++++++++++++++++++++++++
 5 files changed, 121 insertions(+), 21 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpInt.h b/lib/cudd-3.0.0/dddmp/dddmpInt.h
index 7d0f54d..ad427f0 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpInt.h
+++ b/lib/cudd-3.0.0/dddmp/dddmpInt.h
@@ -197,6 +197,8 @@ extern int DddmpReadNodeIndexCnf(DdNode *f);
 extern int DddmpCuddDdArrayStoreBdd(Dddmp_DecompType ddType, DdManager *ddMgr, char *ddname, int nRoots, DdNode **f, char **rootnames, char **varnames, int *auxids, int mode, Dddmp_VarInfoType varinfo, char *fname, FILE *fp);
 extern int DddmpCuddBddArrayStore(Dddmp_DecompType ddType, DdManager *ddMgr, char *ddname, int nRoots, DdNode **f, char **rootnames, char **varnames, int *auxids, int mode, Dddmp_VarInfoType varinfo, char *fname, FILE *fp);
 extern int QsortStrcmp(const void *ps1, const void *ps2);
+extern void DddmpRemoveConstant(DdManager *ddMgr, DdNode *f);
+extern void DddmpRestoreConstant(DdManager *ddMgr, DdNode *f);
 extern int FindVarname(char *name, char **array, int n);
 extern char * DddmpStrDup(char *str);
 extern char ** DddmpStrArrayDup(char **array, int n);
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
index 5185c57..b5303ea 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
@@ -361,6 +361,8 @@ RemoveFromUniqueRecurAdd (
 
     f->next = NULL;
 
+  } else {
+    DddmpRemoveConstant (ddMgr, f);
   }
 
   DddmpSetVisitedAdd (f);
@@ -398,16 +400,13 @@ RestoreInUniqueRecurAdd (
 
   f = Cudd_Regular(f);
 
-  if (!Cudd_IsComplement (f->next)) {
+  if (cuddIsConstant (f)) {
+    DddmpRestoreConstant (ddMgr, f);
+
     return;
   }
 
-  if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedAdd (f);*/
-    f->next = NULL;
-
+  if (!Cudd_IsComplement (f->next)) {
     return;
   }
 
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
index 8699a91..b75605d 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
@@ -362,6 +362,8 @@ RemoveFromUniqueRecurBdd (
 
     f->next = NULL;
 
+  } else {
+    DddmpRemoveConstant (ddMgr, f);
   }
 
   DddmpSetVisitedBdd (f);
@@ -399,16 +401,13 @@ RestoreInUniqueRecurBdd (
 
   f = Cudd_Regular(f);
 
-  if (!Cudd_IsComplement (f->next)) {
+  if (cuddIsConstant (f)) {
+    DddmpRestoreConstant (ddMgr, f);
+
     return;
   }
 
-  if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedBdd (f);*/   
-    f->next = NULL;
-
+  if (!Cudd_IsComplement (f->next)) {
     return;
   }
 
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c b/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c
index 1aacadc..4f871bb 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c
@@ -787,6 +787,8 @@ RemoveFromUniqueRecurCnf (
 
     f->next = NULL;
 
+  } else {
+    DddmpRemoveConstant (ddMgr, f);
   }
 
   DddmpSetVisitedCnf (f);
@@ -824,16 +826,13 @@ RestoreInUniqueRecurCnf (
 
   f = Cudd_Regular(f);
 
-  if (!Cudd_IsComplement (f->next)) {
+  if (cuddIsConstant (f)) {
+    DddmpRestoreConstant (ddMgr, f);
+
     return;
   }
 
-  if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedCnf (f);*/
-    f->next = NULL;
-
+  if (!Cudd_IsComplement (f->next)) {
     return;
   }
 
diff --git a/lib/cudd-3.0.0/dddmp/dddmpUtil.c b/lib/cudd-3.0.0/dddmp/dddmpUtil.c
index feff439..2c623ed 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpUtil.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpUtil.c
@@ -430,6 +430,107 @@ DddmpIntArrayWrite (
   return (n);
 }
 
+/**Function********************************************************************
+
+  Synopsis    [Finds the collision chain of a constant]
+
+  Description [Returns the address of the head of the collision chain of the
+    unique table for constants to which the given constant belongs.
+    ]
+
+  SideEffects [None]
+
+  SeeAlso     [DddmpRemoveConstant (), DddmpRestoreConstant ()]
+
+******************************************************************************/
+
+static DdNodePtr *
+ConstantChain (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant node */
+  )
+{
+  union {
+    CUDD_VALUE_TYPE value;
+    unsigned int bits[2];
+  } split;
+
+  /* Same hash function as in cuddUniqueConst */
+  split.value = cuddV (f);
+
+  return (&(ddMgr->constants.nodelist[ddHash (split.bits[0], split.bits[1],
+    ddMgr->constants.shift)]));
+}
+
+/**Function********************************************************************
+
+  Synopsis    [Removes a constant from the unique table]
+
+  Description [Removes a constant from the unique table, such that its next
+    field can be used for numbering.
+    ]
+
+  SideEffects [The constant is no more in the unique table]
+
+  SeeAlso     [DddmpRestoreConstant ()]
+
+******************************************************************************/
+
+void
+DddmpRemoveConstant (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant node */
+  )
+{
+  DdNodePtr *previousP;
+
+  previousP = ConstantChain (ddMgr, f);
+  while (*previousP != NULL && *previousP != f) {
+    previousP = &((*previousP)->next);
+  }
+  if (*previousP == f) {
+    *previousP = f->next;
+  }
+  f->next = NULL;
+
+  return;
+}
+
+/**Function********************************************************************
+
+  Synopsis    [Puts a constant back into the unique table]
+
+  Description [Puts a constant back into the unique table if it is not there
+    already.
+    ]
+
+  SideEffects [None]
+
+  SeeAlso     [DddmpRemoveConstant ()]
+
+******************************************************************************/
+
+void
+DddmpRestoreConstant (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant node */
+  )
+{
+  DdNodePtr *chain;
+  DdNode *node;
+
+  chain = ConstantChain (ddMgr, f);
+  for (node = *chain; node != NULL; node = node->next) {
+    if (node == f) {
+      return;
+    }
+  }
+  f->next = *chain;
+  *chain = f;
+
+  return;
+}
+
 /*---------------------------------------------------------------------------*/
 /* Definition of static functions                                            */
 /*---------------------------------------------------------------------------*/
-- 
2.43.0


From 0f536b4883b337e7e358e5587d017decceaf15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 71/88] fix: storing several decision diagrams wrote
 inconsistent variable orders when reordering interrupted it

---
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 10 ++++++++--
 lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c | 10 ++++++++--
 lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c | 10 ++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index b304a88..13b8b0c 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -316,8 +316,6 @@ DddmpCuddDdArrayStoreBdd (
     scan = support;
     while (!cuddIsConstant(scan)) {
       ids[scan->index] = scan->index;
-      permids[scan->index] = ddMgr->perm[scan->index];
-      invpermids[ddMgr->perm[scan->index]] = scan->index;
       scan = cuddT (scan);
     }
     Cudd_RecursiveDeref (ddMgr, support);
@@ -325,6 +323,14 @@ DddmpCuddDdArrayStoreBdd (
   /* so that we do not try to free it in case of failure */
   support = NULL;
 
+  /* only now, as computing a support may reorder the variables */
+  for (i=0; i<nVars; i++) {
+    if (ids[i] >= 0) {
+      permids[i] = ddMgr->perm[i];
+      invpermids[ddMgr->perm[i]] = i;
+    }
+  }
+
   /*
    *  Set supportids to incremental (shrinked) values following the ordering.
    */
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
index aa9ee44..c0ec36a 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
@@ -327,8 +327,6 @@ DddmpCuddBddArrayStore (
     scan = support;
     while (!cuddIsConstant(scan)) {
       ids[scan->index] = scan->index;
-      permids[scan->index] = ddMgr->perm[scan->index];
-      invpermids[ddMgr->perm[scan->index]] = scan->index;
       scan = cuddT (scan);
     }
     Cudd_RecursiveDeref (ddMgr, support);
@@ -336,6 +334,14 @@ DddmpCuddBddArrayStore (
   /* so that we do not try to free it in case of failure */
   support = NULL;
 
+  /* only now, as computing a support may reorder the variables */
+  for (i=0; i<nVars; i++) {
+    if (ids[i] >= 0) {
+      permids[i] = ddMgr->perm[i];
+      invpermids[ddMgr->perm[i]] = i;
+    }
+  }
+
   /*
    *  Set supportids to incremental (shrinked) values following the ordering.
    */
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c b/lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c
index 86c2462..a251dc7 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c
@@ -379,9 +379,8 @@ DddmpCuddBddArrayStoreCnf (
     while (!cuddIsConstant(scan)) {
       /* Count Number of Variable in the Support */
       nVarInSupport++;
-      /* Set Ids and Perm-Ids */
+      /* Set Ids */
       bddIdsInSupport[scan->index] = scan->index;
-      permIdsInSupport[scan->index] = ddMgr->perm[scan->index];
       scan = cuddT (scan);
     }
     Cudd_RecursiveDeref (ddMgr, support);
@@ -389,6 +388,13 @@ DddmpCuddBddArrayStoreCnf (
   /* so that we do not try to free it in case of failure */
   support = NULL;
 
+  /* Set Perm-Ids (only now, as computing a support may reorder variables) */
+  for (i=0; i<nVar; i++) {
+    if (bddIdsInSupport[i] >= 0) {
+      permIdsInSupport[i] = ddMgr->perm[i];
+    }
+  }
+
   /*---------------------------- Start HEADER -------------------------------*/
 
   if (noHeader==0) {
-- 
2.43.0


From ecf5c44230bae857fa74f06802ec131cbb502e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 72/88] fix: DDcal export printed ambiguous node names when
 reordering interrupted it

---
 lib/cudd-3.0.0/cudd/cuddExport.c | 41 +++++++++++++++++---------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddExport.c b/lib/cudd-3.0.0/cudd/cuddExport.c
index 4107b2d..00d7aff 100644
--- a/lib/cudd-3.0.0/cudd/cuddExport.c
+++ b/lib/cudd-3.0.0/cudd/cuddExport.c
@@ -722,6 +722,27 @@ Cudd_DumpDDcal(
     st_generator  *gen;
     ptruint       refAddr, diff, mask = 0;
 
+    /* Build a bit array with the support of f. This may trigger
+    ** reordering, which changes the nodes. Hence it is done first. */
+    sorted = ALLOC(int,nvars);
+    if (sorted == NULL) {
+	dd->errorCode = CUDD_MEMORY_OUT;
+	goto failure;
+    }
+    for (i = 0; i < nvars; i++) sorted[i] = 0;
+
+    /* Take the union of the supports of each output function. */
+    support = Cudd_VectorSupport(dd,f,n);
+    if (support == NULL) goto failure;
+    cuddRef(support);
+    scan = support;
+    while (!cuddIsConstant(scan)) {
+	sorted[scan->index] = 1;
+	scan = cuddT(scan);
+    }
+    Cudd_RecursiveDeref(dd,support);
+    support = NULL; /* so that we do not try to free it in case of failure */
+
     /* Initialize symbol table for visited nodes. */
     visited = st_init_table(st_ptrcmp, st_ptrhash);
     if (visited == NULL) goto failure;
@@ -759,25 +780,7 @@ Cudd_DumpDDcal(
     }
     st_free_table(visited);
 
-    /* Build a bit array with the support of f. */
-    sorted = ALLOC(int,nvars);
-    if (sorted == NULL) {
-	dd->errorCode = CUDD_MEMORY_OUT;
-	goto failure;
-    }
-    for (i = 0; i < nvars; i++) sorted[i] = 0;
-
-    /* Take the union of the supports of each output function. */
-    support = Cudd_VectorSupport(dd,f,n);
-    if (support == NULL) goto failure;
-    cuddRef(support);
-    scan = support;
-    while (!cuddIsConstant(scan)) {
-	sorted[scan->index] = 1;
-	scan = cuddT(scan);
-    }
-    Cudd_RecursiveDeref(dd,support);
-    support = NULL; /* so that we do not try to free it in case of failure */
+    /* Print the support of f. */
     for (i = 0; i < nvars; i++) {
 	if (sorted[dd->invperm[i]]) {
 	    if (inames == NULL || inames[dd->invperm[i]] == NULL) {
-- 
2.43.0


From 11153684bd09bbd2320b020a68e86c54a12c9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:35 +0000
Subject: [PATCH 73/88] fix: loading a DDDMP file that cannot be opened
 crashed, and reading a bad header leaked memory

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index cd7e91c..28a654b 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -395,7 +395,7 @@ Dddmp_cuddHeaderLoad (
   FILE *fp                   /* IN: file pointer */
   )
 {
-  Dddmp_Hdr_t *Hdr;
+  Dddmp_Hdr_t *Hdr = NULL;
   int i, fileToClose;
   int *tmpVarIds = NULL;
   int *tmpVarComposeIds = NULL;
@@ -534,6 +534,13 @@ Dddmp_cuddHeaderLoad (
   return (DDDMP_SUCCESS);
 
   failure:
+
+    if (fileToClose == 1) {
+      fclose (fp);
+    }
+
+    DddmpFreeHeader(Hdr);
+
     return (DDDMP_FAILURE);
 }
 
@@ -1481,6 +1488,10 @@ DddmpFreeHeader (
   Dddmp_Hdr_t *Hdr   /* IN: pointer to header */
   )
 {
+  if (Hdr == NULL) {
+    return;
+  }
+
   DDDMP_FREE (Hdr->ver);
   DDDMP_FREE (Hdr->dd);
   DddmpStrArrayFree (Hdr->orderedVarNames, Hdr->nVars);
-- 
2.43.0


From cfbb0ce73942cc4e731cf4d9f10ecf6ffdf3dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:01 +0000
Subject: [PATCH 74/88] fix: loading a CNF file that cannot be opened crashed,
 and reading a bad header leaked memory

---
 lib/cudd-3.0.0/dddmp/dddmpLoadCnf.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoadCnf.c b/lib/cudd-3.0.0/dddmp/dddmpLoadCnf.c
index 3642b8c..e7d3781 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoadCnf.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoadCnf.c
@@ -228,7 +228,7 @@ Dddmp_cuddHeaderLoadCnf (
   FILE *fp                   /* IN: file pointer */
   )
 {
-  Dddmp_Hdr_t *Hdr;
+  Dddmp_Hdr_t *Hdr = NULL;
   int i, fileToClose;
   char **tmpOrderedVarNames = NULL;
   char **tmpSuppVarNames = NULL;
@@ -246,6 +246,8 @@ Dddmp_cuddHeaderLoadCnf (
 
   Hdr = DddmpBddReadHeaderCnf (NULL, fp);
 
+  Dddmp_CheckAndGotoLabel (Hdr==NULL, "Error reading header.",
+    failure);
   Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
     failure);
 
@@ -370,6 +372,13 @@ Dddmp_cuddHeaderLoadCnf (
   return (DDDMP_SUCCESS);
 
   failure:
+
+    if (fileToClose == 1) {
+      fclose (fp);
+    }
+
+    DddmpFreeHeaderCnf (Hdr);
+
     return (DDDMP_FAILURE);
 }
 
@@ -483,10 +492,12 @@ failure:
     fclose (fp);
   }
 
-  for (i=0; i<Hdr->nClausesCnf; i++) {
-    DDDMP_FREE (cnfTable[i]);
+  if (cnfTable != NULL) {
+    for (i=0; i<Hdr->nClausesCnf; i++) {
+      DDDMP_FREE (cnfTable[i]);
+    }
+    DDDMP_FREE (cnfTable);
   }
-  DDDMP_FREE (cnfTable);
 
   DddmpFreeHeaderCnf (Hdr);
 
-- 
2.43.0


From d42056d1abfc79000a85691b4539ecaf4668dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 75/88] fix: converting DDDMP files leaked the array of the
 roots

---
 lib/cudd-3.0.0/dddmp/dddmpConvert.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpConvert.c b/lib/cudd-3.0.0/dddmp/dddmpConvert.c
index c24292e..3c16fb9 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpConvert.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpConvert.c
@@ -81,7 +81,7 @@ Dddmp_Text2Bin (
   )
 {
   DdManager *ddMgr;      /* pointer to DD manager */
-  DdNode **roots;        /* array of BDD roots to be loaded */
+  DdNode **roots = NULL; /* array of BDD roots to be loaded */
   int nRoots;            /* number of BDD roots */
   int retValue;
  
@@ -103,11 +103,13 @@ Dddmp_Text2Bin (
   Dddmp_CheckAndGotoLabel (retValue<=0,
     "Error code returned.", failure);
    
+  DDDMP_FREE(roots);
   Cudd_Quit(ddMgr);
   return (1);
 
   failure:
     printf("error converting BDD format\n");
+    DDDMP_FREE(roots);
     Cudd_Quit(ddMgr);
     return (0);
 }
@@ -132,7 +134,7 @@ Dddmp_Bin2Text (
   )
 {
   DdManager *ddMgr;      /* pointer to DD manager */
-  DdNode **roots;        /* array of BDD roots to be loaded */
+  DdNode **roots = NULL; /* array of BDD roots to be loaded */
   int nRoots;            /* number of BDD roots */
   int retValue;
 
@@ -154,11 +156,13 @@ Dddmp_Bin2Text (
   Dddmp_CheckAndGotoLabel (retValue<=0,
     "Error code returned.", failure);
    
+  DDDMP_FREE(roots);
   Cudd_Quit(ddMgr);
   return (1);
 
   failure:
     printf("error converting BDD format\n");
+    DDDMP_FREE(roots);
     Cudd_Quit(ddMgr);
     return (0);
 }
-- 
2.43.0


From 86dc7c70c34f7acd696120685bfcbd8020f9333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 76/88] fix: Cudd_bddIsVar read a complemented function at the
 wrong address

---
 lib/cudd-3.0.0/cudd/cuddAPI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddAPI.c b/lib/cudd-3.0.0/cudd/cuddAPI.c
index 967a74f..b7c334b 100644
--- a/lib/cudd-3.0.0/cudd/cuddAPI.c
+++ b/lib/cudd-3.0.0/cudd/cuddAPI.c
@@ -238,7 +238,7 @@ Cudd_bddIsVar(
   DdNode * f)
 {
     DdNode *one = DD_ONE(dd);
-    return(f != 0 && cuddT(f) == one && cuddE(f) == Cudd_Not(one));
+    return(f != 0 && !Cudd_IsComplement(f) && cuddT(f) == one && cuddE(f) == Cudd_Not(one));
 
 } /* end of Cudd_bddIsVar */
 
-- 
2.43.0


From 02cdb74503df317dec763c400616f5d1f02c833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:11 +0000
Subject: [PATCH 77/88] fix: shuffling variables left the siblings of the group
 tree unsorted

---
 lib/cudd-3.0.0/cudd/cuddReorder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddReorder.c b/lib/cudd-3.0.0/cudd/cuddReorder.c
index c777ac2..a590d55 100644
--- a/lib/cudd-3.0.0/cudd/cuddReorder.c
+++ b/lib/cudd-3.0.0/cudd/cuddReorder.c
@@ -326,6 +326,9 @@ Cudd_ShuffleHeap(
 	FREE(perm);
 	return(0);
     }
+    /* Siblings are expected to be sorted by their positions in the order. */
+    if (table->tree != NULL)
+	Mtr_ReorderGroups(table->tree,perm);
     FREE(perm);
 
     result = ddShuffle(table,permutation);
-- 
2.43.0


From 56886da74f816244af30178986e1f4ffe78df3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 78/88] fix: a group of variables could be made that cuts
 another group

---
 lib/cudd-3.0.0/mtr/mtrGroup.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/cudd-3.0.0/mtr/mtrGroup.c b/lib/cudd-3.0.0/mtr/mtrGroup.c
index 899a0d4..5536c88 100644
--- a/lib/cudd-3.0.0/mtr/mtrGroup.c
+++ b/lib/cudd-3.0.0/mtr/mtrGroup.c
@@ -276,6 +276,12 @@ Mtr_MakeGroup(
 	return(NULL);
     }
 
+    if (last->younger != NULL &&
+	(unsigned int) last->younger->low < low + size) {
+	/* The group after last is only partly in the new group: not allowed. */
+	return(NULL);
+    }
+
     /* First and last point to the first and last of the children of
     ** root that are included in the new group. Allocate a new node
     ** and make all children of root between first and last chidren of
-- 
2.43.0


From 0683a9f714546e76ec2eb7bff55fc5ff4acd0234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 79/88] fix: extracting minterms from a decision diagram leaked
 references

---
 lib/cudd-3.0.0/cudd/cuddSplit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddSplit.c b/lib/cudd-3.0.0/cudd/cuddSplit.c
index f806f6d..6515381 100644
--- a/lib/cudd-3.0.0/cudd/cuddSplit.c
+++ b/lib/cudd-3.0.0/cudd/cuddSplit.c
@@ -519,6 +519,8 @@ selectMintermsFromUniverse(
 	Cudd_RecursiveDeref(manager,vars[i]);
     FREE(vars);
 
+    if (result)
+	cuddDeref(result);
     return(result);
 
 } /* end of selectMintermsFromUniverse */
-- 
2.43.0


From 0baa31b56dd692bd21e9c8d3c00b98dbdb96ef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 80/88] fix: non-simultaneous composition wrote beyond its
 vectors

---
 lib/cudd-3.0.0/cudd/cuddCompose.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddCompose.c b/lib/cudd-3.0.0/cudd/cuddCompose.c
index e5c5f50..2846e7a 100644
--- a/lib/cudd-3.0.0/cudd/cuddCompose.c
+++ b/lib/cudd-3.0.0/cudd/cuddCompose.c
@@ -656,7 +656,7 @@ Cudd_addNonSimCompose(
 {
     DdNode		*cube, *key, *var, *tmp, *piece;
     DdNode		*res;
-    int			i, lastsub;
+    int			i;
 
     /* The cache entry for this function is composed of three parts:
     ** f itself, the replacement relation, and the cube of the
@@ -717,16 +717,10 @@ Cudd_addNonSimCompose(
 
     /* Now try composition, until no reordering occurs. */
     do {
-	/* Find real substitution with largest index. */
-	for (lastsub = dd->size - 1; lastsub >= 0; lastsub--) {
-	    if (!ddIsIthAddVar(dd,vector[lastsub],(unsigned int)lastsub)) {
-		break;
-	    }
-	}
-
-	/* Recursively solve the problem. */
+	/* Recursively solve the problem. The recursion visits all variables
+	** of f, hence it needs the whole vector. */
 	dd->reordered = 0;
-	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,lastsub+1);
+	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,dd->size);
 	if (res != NULL) cuddRef(res);
 
     } while (dd->reordered == 1);
-- 
2.43.0


From ac68dd1a12b85726dc6eee3e775cd39fb3055b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 81/88] fix: shuffling variables against their groups leaked
 the interaction matrix

---
 lib/cudd-3.0.0/cudd/cuddReorder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddReorder.c b/lib/cudd-3.0.0/cudd/cuddReorder.c
index a590d55..b955075 100644
--- a/lib/cudd-3.0.0/cudd/cuddReorder.c
+++ b/lib/cudd-3.0.0/cudd/cuddReorder.c
@@ -320,10 +320,12 @@ Cudd_ShuffleHeap(
 	perm[permutation[i]] = i;
     if (!ddCheckPermuation(table,table->tree,perm,permutation)) {
 	FREE(perm);
+	(void) ddReorderPostprocess(table);
 	return(0);
     }
     if (!ddUpdateMtrTree(table,table->tree,perm,permutation)) {
 	FREE(perm);
+	(void) ddReorderPostprocess(table);
 	return(0);
     }
     /* Siblings are expected to be sorted by their positions in the order. */
-- 
2.43.0


From bbe3959592edb1f711f3843ec05adc9244cd6d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:13 +0000
Subject: [PATCH 82/88] fix: printed densities lacked the leading zeros of
 their fractions

---
 lib/cudd-3.0.0/cudd/cuddApa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddApa.c b/lib/cudd-3.0.0/cudd/cuddApa.c
index 87dca2c..5dfa5d2 100644
--- a/lib/cudd-3.0.0/cudd/cuddApa.c
+++ b/lib/cudd-3.0.0/cudd/cuddApa.c
@@ -924,7 +924,7 @@ Cudd_ApaPrintDensity(
     FREE(count);
     FREE(density);
     fractional = (unsigned int)((double)remainder / size * 1000000);
-    if (fprintf(fp,".%u\n", fractional) == EOF) {
+    if (fprintf(fp,".%06u\n", fractional) == EOF) {
 	return(0);
     }
     return(result);
-- 
2.43.0


From b798e420e27ed8ad74e126102d6f481c77086f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:25 +0000
Subject: [PATCH 83/88] fix: extended floating point numbers turned zero into a
 tiny number

---
 lib/cudd-3.0.0/epd/epd.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/cudd-3.0.0/epd/epd.c b/lib/cudd-3.0.0/epd/epd.c
index 7bfa907..1798431 100644
--- a/lib/cudd-3.0.0/epd/epd.c
+++ b/lib/cudd-3.0.0/epd/epd.c
@@ -169,7 +169,7 @@ EpdMultiply(EpDouble *epd1, double value)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
   tmp = epd1->type.value * epd2.type.value;
@@ -200,8 +200,8 @@ EpdMultiply2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   value = epd1->type.value * epd2->type.value;
   exponent = epd1->exponent + epd2->exponent;
@@ -258,8 +258,8 @@ EpdMultiply3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   epd3->type.value = epd1->type.value * epd2->type.value;
   epd3->exponent = epd1->exponent + epd2->exponent;
@@ -324,7 +324,7 @@ EpdDivide(EpDouble *epd1, double value)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
   tmp = epd1->type.value / epd2.type.value;
@@ -367,8 +367,8 @@ EpdDivide2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   value = epd1->type.value / epd2->type.value;
   exponent = epd1->exponent - epd2->exponent;
@@ -407,8 +407,8 @@ EpdDivide3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   epd3->type.value = epd1->type.value / epd2->type.value;
   epd3->exponent = epd1->exponent - epd2->exponent;
@@ -808,6 +808,11 @@ EpdNormalize(EpDouble *epd)
     return;
   }
 
+  if (EpdIsZero(epd)) {
+    epd->exponent = 0;
+    return;
+  }
+
   exponent = EpdGetExponent(epd->type.value);
   if (exponent == EPD_MAX_BIN)
     return;
-- 
2.43.0


From 7caa5d936a8c5d2e2d0467fbd55154c9e4d0a32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:39 +0000
Subject: [PATCH 84/88] fix: subtracting infinite extended floating point
 numbers gave wrong signs

---
 lib/cudd-3.0.0/epd/epd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/epd/epd.c b/lib/cudd-3.0.0/epd/epd.c
index 1798431..a06edbe 100644
--- a/lib/cudd-3.0.0/epd/epd.c
+++ b/lib/cudd-3.0.0/epd/epd.c
@@ -606,7 +606,7 @@ EpdSubtract(EpDouble *epd1, double value)
       if (sign == 0)
 	EpdMakeNan(epd1);
     } else if (EpdIsInf(&epd2)) {
-      EpdCopy(&epd2, epd1);
+      EpdMakeInf(epd1, epd2.type.bits.sign ^ 0x1);
     }
     return;
   }
@@ -658,7 +658,7 @@ EpdSubtract2(EpDouble *epd1, EpDouble const *epd2)
       if (sign == 0)
 	EpdMakeNan(epd1);
     } else if (EpdIsInf(epd2)) {
-      EpdCopy(epd2, epd1);
+      EpdMakeInf(epd1, epd2->type.bits.sign ^ 0x1);
     }
     return;
   }
@@ -709,7 +709,7 @@ EpdSubtract3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
 
     if (EpdIsInf(epd1) && EpdIsInf(epd2)) {
       sign = epd1->type.bits.sign ^ epd2->type.bits.sign;
-      if (sign == 0)
+      if (sign == 1)
 	EpdCopy(epd1, epd3);
       else
 	EpdMakeNan(epd3);
-- 
2.43.0


From e97d512cbcbe42ba384be31bf23ed87b39423404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 85/88] fix: numbers rounded up to a power of ten were printed
 without digits

---
 lib/cudd-3.0.0/cudd/cuddApa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddApa.c b/lib/cudd-3.0.0/cudd/cuddApa.c
index 5dfa5d2..ef41b36 100644
--- a/lib/cudd-3.0.0/cudd/cuddApa.c
+++ b/lib/cudd-3.0.0/cudd/cuddApa.c
@@ -720,6 +720,10 @@ Cudd_ApaPrintExponential(
         }
     }
 
+    /* The carry may have produced a new most significant digit. */
+    if (first > 0 && decimal[first - 1] != 0)
+        first--;
+
     /* Don't print trailing zeros. */
     while (last > first && decimal[last - 1] == 0)
         last--;
-- 
2.43.0


From 015899d870cc55c3276cb449052f5f854dfdf59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 86/88] fix: adding zero to a tiny extended floating point
 number gave zero

---
 lib/cudd-3.0.0/epd/epd.c | 45 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/lib/cudd-3.0.0/epd/epd.c b/lib/cudd-3.0.0/epd/epd.c
index a06edbe..3bb824c 100644
--- a/lib/cudd-3.0.0/epd/epd.c
+++ b/lib/cudd-3.0.0/epd/epd.c
@@ -443,6 +443,14 @@ EpdAdd(EpDouble *epd1, double value)
     return;
   }
 
+  /* The exponent of zero has no meaning. */
+  if (value == 0.0)
+    return;
+  if (EpdIsZero(epd1)) {
+    EpdConvert(value, epd1);
+    return;
+  }
+
   assert(epd1->type.bits.exponent == EPD_MAX_BIN);
 
   EpdConvert(value, &epd2);
@@ -497,6 +505,13 @@ EpdAdd2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
+  if (EpdIsZero(epd2))
+    return;
+  if (EpdIsZero(epd1)) {
+    EpdCopy(epd2, epd1);
+    return;
+  }
+
   assert(epd1->type.bits.exponent == EPD_MAX_BIN);
   assert(epd2->type.bits.exponent == EPD_MAX_BIN);
 
@@ -555,6 +570,11 @@ EpdAdd3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
+  if (EpdIsZero(epd1) || EpdIsZero(epd2)) {
+    EpdCopy(EpdIsZero(epd2) ? epd1 : epd2, epd3);
+    return;
+  }
+
   assert(epd1->type.bits.exponent == EPD_MAX_BIN);
   assert(epd2->type.bits.exponent == EPD_MAX_BIN);
 
@@ -611,6 +631,13 @@ EpdSubtract(EpDouble *epd1, double value)
     return;
   }
 
+  if (value == 0.0)
+    return;
+  if (EpdIsZero(epd1)) {
+    EpdConvert(-value, epd1);
+    return;
+  }
+
   assert(epd1->type.bits.exponent == EPD_MAX_BIN);
 
   EpdConvert(value, &epd2);
@@ -663,6 +690,14 @@ EpdSubtract2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
+  if (EpdIsZero(epd2))
+    return;
+  if (EpdIsZero(epd1)) {
+    EpdCopy(epd2, epd1);
+    epd1->type.bits.sign ^= 0x1;
+    return;
+  }
+
   assert(epd1->type.bits.exponent == EPD_MAX_BIN);
   assert(epd2->type.bits.exponent == EPD_MAX_BIN);
 
@@ -722,6 +757,16 @@ EpdSubtract3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
+  if (EpdIsZero(epd2)) {
+    EpdCopy(epd1, epd3);
+    return;
+  }
+  if (EpdIsZero(epd1)) {
+    EpdCopy(epd2, epd3);
+    epd3->type.bits.sign ^= 0x1;
+    return;
+  }
+
   assert(epd1->type.bits.exponent == EPD_MAX_BIN);
   assert(epd2->type.bits.exponent == EPD_MAX_BIN);
 
-- 
2.43.0


From 729bf3c0177847c81e647731aabbd087194b4ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:07 +0000
Subject: [PATCH 87/88] fix: weakened safety assumptions could contain clauses
 that are not needed

---
 src/extensionWeakenSafetyAssumptions.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 38dea89..ab26d52 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -164,6 +164,30 @@ public:
             clausesFoundSoFarIntAfterFiltering.insert(filteredLiterals);
         }
 
+        // Shortening the clauses may have made other clauses unnecessary for realizability. Remove these.
+        for (auto it = clausesFoundSoFarIntAfterFiltering.begin();it!=clausesFoundSoFarIntAfterFiltering.end();) {
+            safetyEnv = mgr.constantTrue();
+            for (auto it2 = clausesFoundSoFarIntAfterFiltering.begin();it2!=clausesFoundSoFarIntAfterFiltering.end();it2++) {
+                if (it2!=it) {
+                    BF thisClauseBF = mgr.constantFalse();
+                    for (unsigned int i=0;i<variables.size();i++) {
+                        if ((*it2)[i]>0) {
+                            thisClauseBF |= variables[i];
+                        } else if ((*it2)[i]<0) {
+                            thisClauseBF |= !variables[i];
+                        }
+                    }
+                    safetyEnv &= thisClauseBF;
+                }
+            }
+            checkRealizability();
+            if (realizable) {
+                it = clausesFoundSoFarIntAfterFiltering.erase(it);
+            } else {
+                it++;
+            }
+        }
+
 
         // Print the final set of clauses to stdout
         std::cout << "# Simplified safety assumption CNF clauses:\n";
-- 
2.43.0


From e768759c5c3e7dc217ba5ea31e9cbcdc16702dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 88/88] fix: rounding of transition costs made cost-optimal
 strategies incomplete

---
 src/extensionTwoDimensionalCost.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 8abbf4b..88255dd 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -509,17 +509,16 @@ public:
 
                     // .... and add the allowed transitions to positions that are already know to be winning ...
                     for (auto it = transitionCosts.begin();it!=transitionCosts.end();it++) {
-                        double allowedActionCost = currentTuple.getActionCost() - it->first;
-                        // Numeric correction
-                        allowedActionCost = std::nextafter(allowedActionCost,std::numeric_limits<double>::max());
-                        // std::cerr << "Allowed Action Cost: " << allowedActionCost << std::endl;
-                        auto winningStateFinder = winningPositionsFound.upper_bound(MK_COST_TUPLE(currentTuple.getWaitingCost(),allowedActionCost));
-                        if (winningStateFinder != winningPositionsFound.begin()) {
-                            // The upper bound is not quite what we need, rather the element before it
-                            winningStateFinder--;
-                            // std::cerr << "Found some transitions...\n";
-                            allowedEndingTransitions |= safetySys & winningStateFinder->second.SwapVariables(varVectorPre,varVectorPost) & it->second;
-                            //BF_newDumpDot(*this,winningStateFinder->second,"Pre Post",filename.str()+"winningStateFinder.dot");
+                        // Look for the most costly tuple that leads to at most the current one when adding the cost of the transition.
+                        // Adding up the costs in the same way as for the TODO list makes sure that rounding does not matter.
+                        for (auto it2 = winningPositionsFound.rbegin();it2!=winningPositionsFound.rend();it2++) {
+                            TwoDimensionalCostNotionTuple winningTuple = it2->first;
+                            if (MK_COST_TUPLE(winningTuple.getWaitingCost(),it->first+winningTuple.getActionCost())<=currentTuple) {
+                                // std::cerr << "Found some transitions...\n";
+                                allowedEndingTransitions |= safetySys & it2->second.SwapVariables(varVectorPre,varVectorPost) & it->second;
+                                //BF_newDumpDot(*this,it2->second,"Pre Post",filename.str()+"winningPositions.dot");
+                                break;
+                            }
                         }
                     }
 
-- 
2.43.0

