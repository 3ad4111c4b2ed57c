From 48eaa5f404cf3bdd5e50badc40f0662049ef3d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:24 +0000
Subject: [PATCH 01/23] fix: keep the weight and enabled state of rules when
 copying an engine

---
 src/Engine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 018c669..490fb65 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -99,6 +99,12 @@ namespace fuzzylite {
             } catch (...) {
                 // ignore
             }
+            // loading enables the rule and takes its weight from the text
+            for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
+                const Rule* source = other._ruleBlocks.at(i)->getRule(r);
+                ruleBlock->getRule(r)->setEnabled(source->isEnabled());
+                ruleBlock->getRule(r)->setWeight(source->getWeight());
+            }
             _ruleBlocks.push_back(ruleBlock);
         }
     }
-- 
2.43.0


From 1eecb61196186f078fc462df01f1695ea74005c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:36 +0000
Subject: [PATCH 02/23] fix: copied output activations refer to the terms and
 implications of the copy

---
 src/Engine.cpp                  | 14 ++++++++++++++
 src/variable/OutputVariable.cpp | 10 ++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 490fb65..0667186 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -107,6 +107,20 @@ namespace fuzzylite {
             }
             _ruleBlocks.push_back(ruleBlock);
         }
+
+        // the copied activations must refer to the copied implications, not to those of the other engine
+        for (std::size_t i = 0; i < _outputVariables.size(); ++i) {
+            std::vector<Activated>& activations = _outputVariables.at(i)->fuzzyOutput()->terms();
+            for (std::size_t t = 0; t < activations.size(); ++t) {
+                for (std::size_t r = 0; r < _ruleBlocks.size(); ++r) {
+                    const TNorm* implication = other._ruleBlocks.at(r)->getImplication();
+                    if (implication and activations.at(t).getImplication() == implication) {
+                        activations.at(t).setImplication(_ruleBlocks.at(r)->getImplication());
+                        break;
+                    }
+                }
+            }
+        }
     }
 
     void Engine::updateReferences() const {
diff --git a/src/variable/OutputVariable.cpp b/src/variable/OutputVariable.cpp
index b8c327c..77f8e7b 100644
--- a/src/variable/OutputVariable.cpp
+++ b/src/variable/OutputVariable.cpp
@@ -49,6 +49,16 @@ namespace fuzzylite {
 
     void OutputVariable::copyFrom(const OutputVariable& other) {
         _fuzzyOutput.reset(other._fuzzyOutput->clone());
+        // the copied activations must refer to the copied terms, not to those of the other variable
+        for (std::size_t i = 0; i < _fuzzyOutput->numberOfTerms(); ++i) {
+            Activated& activated = _fuzzyOutput->terms().at(i);
+            for (std::size_t t = 0; t < numberOfTerms(); ++t) {
+                if (activated.getTerm() == other.getTerm(t)) {
+                    activated.setTerm(getTerm(t));
+                    break;
+                }
+            }
+        }
         if (other._defuzzifier.get())
             _defuzzifier.reset(other._defuzzifier->clone());
         _previousValue = other._previousValue;
-- 
2.43.0


From 39f6ca6359ea7ae178ffda707bde235020b81adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:52 +0000
Subject: [PATCH 03/23] fix: engine readiness considers the operators of
 antecedents regardless of whitespace

---
 src/Engine.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 0667186..dbb90a1 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -24,6 +24,7 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 #include "fuzzylite/factory/FactoryManager.h"
 #include "fuzzylite/imex/FllExporter.h"
 #include "fuzzylite/norm/t/AlgebraicProduct.h"
+#include "fuzzylite/rule/Antecedent.h"
 #include "fuzzylite/rule/Consequent.h"
 #include "fuzzylite/rule/Expression.h"
 #include "fuzzylite/rule/Rule.h"
@@ -257,12 +258,31 @@ namespace fuzzylite {
                         ss << "- Rule block " << (i + 1) << " <" << ruleblock->getName()
                            << "> has a fl::null rule at index <" << r << ">\n";
                     } else {
-                        std::size_t thenIndex = rule->getText().find(" " + Rule::thenKeyword() + " ");
-                        std::size_t andIndex = rule->getText().find(" " + Rule::andKeyword() + " ");
-                        std::size_t orIndex = rule->getText().find(" " + Rule::orKeyword() + " ");
-                        if (andIndex != std::string::npos and andIndex < thenIndex)
+                        bool usesConjunction = false;
+                        bool usesDisjunction = false;
+                        if (rule->isLoaded()) {
+                            // the operators of the antecedent can be next to any whitespace or parenthesis in the text
+                            std::vector<const Expression*> expressions(1, rule->getAntecedent()->getExpression());
+                            while (not expressions.empty()) {
+                                const Operator* fuzzyOperator = dynamic_cast<const Operator*>(expressions.back());
+                                expressions.pop_back();
+                                if (fuzzyOperator) {
+                                    usesConjunction = usesConjunction or fuzzyOperator->name == Rule::andKeyword();
+                                    usesDisjunction = usesDisjunction or fuzzyOperator->name == Rule::orKeyword();
+                                    expressions.push_back(fuzzyOperator->left);
+                                    expressions.push_back(fuzzyOperator->right);
+                                }
+                            }
+                        } else {
+                            std::size_t thenIndex = rule->getText().find(" " + Rule::thenKeyword() + " ");
+                            std::size_t andIndex = rule->getText().find(" " + Rule::andKeyword() + " ");
+                            std::size_t orIndex = rule->getText().find(" " + Rule::orKeyword() + " ");
+                            usesConjunction = andIndex != std::string::npos and andIndex < thenIndex;
+                            usesDisjunction = orIndex != std::string::npos and orIndex < thenIndex;
+                        }
+                        if (usesConjunction)
                             ++requiresConjunction;
-                        if (orIndex != std::string::npos and orIndex < thenIndex)
+                        if (usesDisjunction)
                             ++requiresDisjunction;
                         if (rule->isLoaded()) {
                             Consequent* consequent = rule->getConsequent();
-- 
2.43.0


From 4579b584266bb34346a2e85d8dfa3849b4791054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 04/23] fix: replacing the first match keeps the rest of the
 text, and replacing an empty text ends

---
 fuzzylite/Operation.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 94f869b..0e812f2 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -844,15 +844,20 @@ namespace fuzzylite {
     inline std::string Operation::findReplace(
         const std::string& str, const std::string& find, const std::string& replace, bool replaceAll
     ) {
+        if (find.empty())
+            return str;
         std::ostringstream result;
         std::size_t fromIndex = 0, nextIndex;
         do {
             nextIndex = str.find(find, fromIndex);
             result << str.substr(fromIndex, nextIndex - fromIndex);
-            if (nextIndex != std::string::npos)
+            if (nextIndex != std::string::npos) {
                 result << replace;
-            fromIndex = nextIndex + find.size();
+                fromIndex = nextIndex + find.size();
+            }
         } while (replaceAll and nextIndex != std::string::npos);
+        if (nextIndex != std::string::npos)  // keep what follows the first replacement
+            result << str.substr(fromIndex);
         return result.str();
     }
 
-- 
2.43.0


From 38d549384840761f6202a658c35457b314be3147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 05/23] fix: valid names are never empty

---
 fuzzylite/Operation.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 0e812f2..bbfa64f 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -838,6 +838,8 @@ namespace fuzzylite {
             if (c == '_' or c == '.' or isalnum(c))
                 ss << c;
         }
+        if (ss.str().empty())
+            return "_";
         return ss.str();
     }
 
-- 
2.43.0


From 704b6885a14fd2a52563875a2e499e88a37caa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 06/23] fix: FIS import keeps the spaces of function terms

Joining the words of a formula without spaces turned 'x and y' into 'xandy',
so function terms with word operators could not be imported.
---
 src/imex/FisImporter.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 87c798c..236c7be 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -550,10 +550,7 @@ namespace fuzzylite {
         term.reset(FactoryManager::instance()->term()->constructObject(flClass));
         term->updateReference(engine);
         term->setName(Op::validName(name));
-        std::string separator;
-        if (not dynamic_cast<Function*>(term.get()))
-            separator = " ";
-        term->configure(Op::join(sortedParams, separator));
+        term->configure(Op::join(sortedParams, " "));
         return term.release();
     }
 
-- 
2.43.0


From 27764b3c4ac18bba54bd9add2fdce05cfea1da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 07/23] fix: FIS import accepts function terms with commas

Formulas of two-argument functions, such as max(x, y), were refused because
every comma was taken as the separator between class and parameters.
---
 src/imex/FisImporter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 236c7be..f4b4ea2 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -468,7 +468,14 @@ namespace fuzzylite {
                 FL_AT
             );
         }
-        std::vector<std::string> termParams = Op::split(nameTerm.at(1), ",");
+        // only the first comma is a separator: formulas of functions may contain commas
+        const std::string& classParams = nameTerm.at(1);
+        const std::size_t comma = classParams.find(',');
+        std::vector<std::string> termParams;
+        if (comma != std::string::npos and comma > 0 and comma + 1 < classParams.size()) {
+            termParams.push_back(classParams.substr(0, comma));
+            termParams.push_back(classParams.substr(comma + 1));
+        }
         if (termParams.size() != 2) {
             throw Exception(
                 "[syntax error] expected term in format 'name':'class',[params], "
-- 
2.43.0


From d4f9b7e2a484685a87c235263865be7de63c03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 08/23] fix: FCL import keeps the spaces of function terms

Joining the words of a formula without spaces turned 'x and y' into 'xandy',
so function terms with word operators could not be imported.
---
 src/imex/FclImporter.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 56e49d4..1be8e40 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -429,10 +429,7 @@ namespace fuzzylite {
         term.reset(FactoryManager::instance()->term()->constructObject(termClass));
         term->updateReference(engine);
         term->setName(Op::validName(name));
-        std::string separator;
-        if (not dynamic_cast<Function*>(term.get()))
-            separator = " ";
-        term->configure(Op::join(parameters, separator));  // remove spaces for text of function
+        term->configure(Op::join(parameters, " "));
         return term.release();
     }
 
-- 
2.43.0


From 97bbf6379402f9217cce3508498f82cb0fa89de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 09/23] fix: FCL import refuses a default value made of
 separators only

'DEFAULT :=|' accessed the front of an empty vector.
---
 src/imex/FclImporter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 1be8e40..497a437 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -472,6 +472,11 @@ namespace fuzzylite {
         }
 
         std::vector<std::string> values = Op::split(token.at(1), "|");
+        if (values.empty()) {
+            std::ostringstream ex;
+            ex << "[syntax error] expected numeric value in line: " << line;
+            throw Exception(ex.str(), FL_AT);
+        }
 
         std::string defaultValue = values.front();
         std::string nc;
-- 
2.43.0


From 0b60962be87b96a828f586f49005592248f5d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 10/23] fix: FCL import keeps the whole name of a rule block

Only the last word of 'RULEBLOCK first block' was taken as the name.
---
 src/imex/FclImporter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 497a437..beb66ac 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -270,9 +270,9 @@ namespace fuzzylite {
 
         std::string name;
         std::getline(blockReader, line);
-        std::size_t index = line.find_last_of(' ');
+        std::size_t index = line.find_first_of(' ');
         if (index != std::string::npos)
-            name = line.substr(index + 1);
+            name = Op::trim(line.substr(index + 1));
         RuleBlock* ruleblock = new RuleBlock(name);
         ruleblock->setActivation(new General);
         engine->addRuleBlock(ruleblock);
-- 
2.43.0


From 90a4033a9b6e3609e69675c4491e6e5e86b50e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 11/23] fix: FLD export generates the exact number of values of
 all variables

pow(64, 1/3) is smaller than 4, so 64 values of three variables gave 27 rows.
Engines without input variables no longer divide by zero.
---
 src/imex/FldExporter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/imex/FldExporter.cpp b/src/imex/FldExporter.cpp
index f1d20c3..6d35126 100644
--- a/src/imex/FldExporter.cpp
+++ b/src/imex/FldExporter.cpp
@@ -209,9 +209,13 @@ namespace fuzzylite {
         }
 
         int resolution;
-        if (scope == AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / engine->numberOfInputVariables()));
-        else  // if (scope == EachVariable)
+        if (scope == AllVariables) {
+            const std::size_t inputs = std::max(std::size_t(1), engine->numberOfInputVariables());
+            int root = (int)std::max(1.0, std::pow(values, 1.0 / inputs));
+            if (std::pow(root + 1.0, scalar(inputs)) <= values)  // rounding of exact roots (e.g., 64^(1/3) < 4)
+                ++root;
+            resolution = -1 + root;
+        } else  // if (scope == EachVariable)
             resolution = values - 1;
 
         std::vector<int> sampleValues, minSampleValues, maxSampleValues;
-- 
2.43.0


From d676f1db7a329641d93397d960d0c28289d0144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 12/23] fix: replacing an object of a cloning factory deletes
 the previous one

The factory owns its objects, but the object replaced by registerObject was leaked.
---
 fuzzylite/factory/CloningFactory.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index 962e6e5..5e4daec 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -157,6 +157,9 @@ namespace fuzzylite {
 
     template <typename T>
     inline void CloningFactory<T>::registerObject(const std::string& key, T object) {
+        typename std::map<std::string, T>::iterator it = this->_objects.find(key);
+        if (it != this->_objects.end() and it->second != object)
+            deregisterObject(key);
         this->_objects[key] = object;
     }
 
-- 
2.43.0


From 0b9eac9b1d4c0d6c376d4b437a16625698cd5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 13/23] fix: Benchmark prepares the exact number of values of
 all variables

---
 src/Benchmark.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index d8f8c26..d07fc68 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -91,9 +91,13 @@ namespace fuzzylite {
         if (not _engine)
             throw Exception("[benchmark error] engine not set before preparing for values and scope", FL_AT);
         int resolution;
-        if (scope == FldExporter::AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / _engine->numberOfInputVariables()));
-        else  // if (scope == EachVariable)
+        if (scope == FldExporter::AllVariables) {
+            const std::size_t inputs = std::max<std::size_t>(1, _engine->numberOfInputVariables());
+            int root = (int)std::max(1.0, std::pow(values, 1.0 / inputs));
+            if (std::pow(root + 1.0, scalar(inputs)) <= values)  // rounding of exact roots (e.g., 64^(1/3) < 4)
+                ++root;
+            resolution = -1 + root;
+        } else  // if (scope == EachVariable)
             resolution = values - 1;
 
         std::vector<int> sampleValues, minSampleValues, maxSampleValues;
-- 
2.43.0


From 2c3a5cdc9608e7579f4dc0cd0ff7e9ae1fb94b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 14/23] fix: Benchmark results convert the time of each run to
 the unit

---
 src/Benchmark.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index d07fc68..29626a7 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -417,9 +417,12 @@ namespace fuzzylite {
 
         if (includeTimes) {
             for (std::size_t i = 0; i < time.size(); ++i) {
-                result.push_back(
-                    Result("t" + Op::str(i + 1), Op::str(time.at(i), unit == NanoSeconds ? 0 : fuzzylite::decimals()))
-                );
+                result.push_back(Result(
+                    "t" + Op::str(i + 1),
+                    Op::str(
+                        convert(time.at(i), NanoSeconds, unit), unit == NanoSeconds ? 0 : fuzzylite::decimals()
+                    )
+                ));
             }
         }
         return result;
-- 
2.43.0


From 7d90819ec5744315883c5b9fb7473498bb166ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 15/23] fix: Aggregated::removeTerm returns the removed term
 instead of a dangling reference

---
 fuzzylite/term/Aggregated.h | 2 +-
 src/term/Aggregated.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fuzzylite/term/Aggregated.h b/fuzzylite/term/Aggregated.h
index d03322e..ce73d68 100644
--- a/fuzzylite/term/Aggregated.h
+++ b/fuzzylite/term/Aggregated.h
@@ -199,7 +199,7 @@ namespace fuzzylite {
           @param index is the index of the term
           @return the removed term
          */
-        virtual const Activated& removeTerm(std::size_t index);
+        virtual Activated removeTerm(std::size_t index);
         /**
           Returns the number of activated terms
           @return the number of activated terms
diff --git a/src/term/Aggregated.cpp b/src/term/Aggregated.cpp
index ac3f1ea..3713f33 100644
--- a/src/term/Aggregated.cpp
+++ b/src/term/Aggregated.cpp
@@ -237,8 +237,8 @@ namespace fuzzylite {
         FL_DBG("Aggregating " << _terms.back().toString());
     }
 
-    const Activated& Aggregated::removeTerm(std::size_t index) {
-        const Activated& term = _terms.at(index);
+    Activated Aggregated::removeTerm(std::size_t index) {
+        const Activated term = _terms.at(index);
         _terms.erase(_terms.begin() + index);
         return term;
     }
-- 
2.43.0


From f839b9471ab4da8668b1489e9b932bd85b41e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 16/23] fix: C++ export prefixes weighted defuzzifiers with the
 namespace

---
 src/imex/CppExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index d2d0171..1d40d3b 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -238,7 +238,7 @@ namespace fuzzylite {
                    + ")";
         }
         if (const WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<const WeightedDefuzzifier*>(defuzzifier))
-            return "new " + weightedDefuzzifier->className() + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
+            return "new " + fl(weightedDefuzzifier->className()) + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
         return "new " + fl(defuzzifier->className());
     }
 
-- 
2.43.0


From 840797f965ee3bfabd0d718e44a6b14e77e8ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 17/23] fix: C++ and Java exports write infinite and NaN
 parameters of terms as literals

---
 fuzzylite/imex/CppExporter.h  | 11 +++++++++++
 fuzzylite/imex/JavaExporter.h | 11 +++++++++++
 src/imex/CppExporter.cpp      | 20 ++++++++++++++++----
 src/imex/JavaExporter.cpp     | 20 ++++++++++++++++----
 4 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/fuzzylite/imex/CppExporter.h b/fuzzylite/imex/CppExporter.h
index 48cb066..20cfd68 100644
--- a/fuzzylite/imex/CppExporter.h
+++ b/fuzzylite/imex/CppExporter.h
@@ -18,6 +18,8 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 #ifndef FL_CPPEXPORTER_H
 #define FL_CPPEXPORTER_H
 
+#include <vector>
+
 #include "fuzzylite/imex/Exporter.h"
 
 namespace fuzzylite {
@@ -130,6 +132,15 @@ namespace fuzzylite {
          */
         virtual std::string toString(scalar value) const;
 
+        /**
+          Returns a string representation of the scalar values separated by commas
+          in the `C++` programming language
+          @param values are the scalar values
+          @return a string representation of the scalar values separated by commas
+          in the `C++` programming language
+         */
+        virtual std::string toString(const std::vector<scalar>& values) const;
+
         /**
           Returns a string representation of the Hedge in the `C++` programming language
           @param hedge is the hedge
diff --git a/fuzzylite/imex/JavaExporter.h b/fuzzylite/imex/JavaExporter.h
index 0a9bac0..ff8bd2f 100644
--- a/fuzzylite/imex/JavaExporter.h
+++ b/fuzzylite/imex/JavaExporter.h
@@ -18,6 +18,8 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 #ifndef FL_JAVAEXPORTER_H
 #define FL_JAVAEXPORTER_H
 
+#include <vector>
+
 #include "fuzzylite/imex/Exporter.h"
 
 namespace fuzzylite {
@@ -145,6 +147,15 @@ namespace fuzzylite {
          */
         virtual std::string toString(scalar value) const;
 
+        /**
+          Returns a string representation of the scalar values separated by commas
+          in the Java programming language
+          @param values are the scalar values
+          @return a string representation of the scalar values separated by commas
+          in the Java programming language
+         */
+        virtual std::string toString(const std::vector<scalar>& values) const;
+
         virtual JavaExporter* clone() const FL_IOVERRIDE;
     };
 }
diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 1d40d3b..d70b5fe 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -184,7 +184,7 @@ namespace fuzzylite {
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << (discrete->xy().size() * 2)
-               << ", " << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+               << ", " << toString(Discrete::toVector(discrete->xy())) << ")";
             return ss.str();
         }
 
@@ -198,13 +198,18 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << toString(linear->coefficients()) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+        std::vector<std::string> parameters = Op::split(term->parameters(), " ");
+        for (std::size_t i = 0; i < parameters.size(); ++i) {
+            scalar value = Op::toScalar(parameters.at(i), 0.0);
+            if (not Op::isFinite(value))
+                parameters.at(i) = toString(value);
+        }
+        ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", " << Op::join(parameters, ", ") << ")";
         return ss.str();
     }
 
@@ -257,6 +262,13 @@ namespace fuzzylite {
         return "new " + fl(activation->className()) + "(" + Op::join(values, ", ") + ")";
     }
 
+    std::string CppExporter::toString(const std::vector<scalar>& values) const {
+        std::vector<std::string> result;
+        for (std::size_t i = 0; i < values.size(); ++i)
+            result.push_back(toString(values.at(i)));
+        return Op::join(result, ", ");
+    }
+
     CppExporter* CppExporter::clone() const {
         return new CppExporter(*this);
     }
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 8388433..62618e3 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -158,7 +158,7 @@ namespace fuzzylite {
             std::ostringstream ss;
             std::vector<scalar> xy;
             ss << term->className() << ".create(\"" << term->getName() << "\", "
-               << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+               << toString(Discrete::toVector(discrete->xy())) << ")";
             return ss.str();
         }
 
@@ -172,13 +172,18 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << toString(linear->coefficients()) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << term->className() << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+        std::vector<std::string> parameters = Op::split(term->parameters(), " ");
+        for (std::size_t i = 0; i < parameters.size(); ++i) {
+            scalar value = Op::toScalar(parameters.at(i), 0.0);
+            if (not Op::isFinite(value))
+                parameters.at(i) = toString(value);
+        }
+        ss << "new " << term->className() << "(\"" << term->getName() << "\", " << Op::join(parameters, ", ") << ")";
         return ss.str();
     }
 
@@ -224,6 +229,13 @@ namespace fuzzylite {
         return Op::str(value);
     }
 
+    std::string JavaExporter::toString(const std::vector<scalar>& values) const {
+        std::vector<std::string> result;
+        for (std::size_t i = 0; i < values.size(); ++i)
+            result.push_back(toString(values.at(i)));
+        return Op::join(result, ", ");
+    }
+
     JavaExporter* JavaExporter::clone() const {
         return new JavaExporter(*this);
     }
-- 
2.43.0


From aaa5e48b798853aca331d7aa9e166b8c3b858b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 18/23] fix: C++, Java and R exports escape quotes and
 backslashes in texts

---
 fuzzylite/imex/Exporter.h    |  9 +++++++++
 src/imex/CppExporter.cpp     | 30 +++++++++++++++---------------
 src/imex/Exporter.cpp        |  5 +++++
 src/imex/JavaExporter.cpp    | 28 ++++++++++++++--------------
 src/imex/RScriptExporter.cpp |  6 +++---
 5 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/fuzzylite/imex/Exporter.h b/fuzzylite/imex/Exporter.h
index 4e8393e..48573f9 100644
--- a/fuzzylite/imex/Exporter.h
+++ b/fuzzylite/imex/Exporter.h
@@ -66,6 +66,15 @@ namespace fuzzylite {
           @return a clone of the exporter
          */
         virtual Exporter* clone() const = 0;
+
+      protected:
+        /**
+          Returns the text as a string literal of the languages exported to
+          (i.e., between quotes, and with its quotes and backslashes escaped)
+          @param text is the text
+          @return the text as a string literal
+         */
+        static std::string quoted(const std::string& text);
     };
 
 }
diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index d70b5fe..94670e3 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -58,8 +58,8 @@ namespace fuzzylite {
         if (not isUsingNamespace())
             cpp << "using namespace fuzzylite;\n\n";
         cpp << fl("Engine* ") << "engine = new " << fl("Engine;\n");
-        cpp << "engine->setName(\"" << engine->getName() << "\");\n";
-        cpp << "engine->setDescription(\"" << engine->getDescription() << "\");\n";
+        cpp << "engine->setName(" << quoted(engine->getName()) << ");\n";
+        cpp << "engine->setDescription(" << quoted(engine->getDescription()) << ");\n";
 
         cpp << "\n";
 
@@ -91,8 +91,8 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("InputVariable* ") << name << " = new " << fl("InputVariable;\n");
-        ss << name << "->setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << "->setName(" << quoted(inputVariable->getName()) << ");\n";
+        ss << name << "->setDescription(" << quoted(inputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -119,8 +119,8 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("OutputVariable* ") << name << " = new " << fl("OutputVariable;\n");
-        ss << name << "->setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << "->setName(" << quoted(outputVariable->getName()) << ");\n";
+        ss << name << "->setDescription(" << quoted(outputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -153,16 +153,15 @@ namespace fuzzylite {
 
         std::ostringstream ss;
         ss << fl("RuleBlock* ") << name << " = new " << fl("RuleBlock;\n");
-        ss << name << "->setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << "->setName(" << quoted(ruleBlock->getName()) << ");\n";
+        ss << name << "->setDescription(" << quoted(ruleBlock->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << "->setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
         ss << name << "->setImplication(" << toString(ruleBlock->getImplication()) << ");\n";
         ss << name << "->setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
-            ss << name << "->addRule(" << fl("Rule") << "::parse(\"" << ruleBlock->getRule(r)->getText()
-               << "\", engine));\n";
+            ss << name << "->addRule(" << fl("Rule") << "::parse(" << quoted(ruleBlock->getRule(r)->getText()) << ", engine));\n";
         }
         ss << "engine->addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -183,21 +182,21 @@ namespace fuzzylite {
         // todo: export height in Discrete
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << (discrete->xy().size() * 2)
+            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << (discrete->xy().size() * 2)
                << ", " << toString(Discrete::toVector(discrete->xy())) << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
-               << "\", engine)";
+            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << quoted(function->getFormula())
+               << ", engine)";
             return ss.str();
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
+            ss << fl(term->className()) << "::create(" << quoted(term->getName()) << ", " << "engine, "
                << toString(linear->coefficients()) << ")";
             return ss.str();
         }
@@ -209,7 +208,8 @@ namespace fuzzylite {
             if (not Op::isFinite(value))
                 parameters.at(i) = toString(value);
         }
-        ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", " << Op::join(parameters, ", ") << ")";
+        ss << "new " << fl(term->className()) << "(" << quoted(term->getName()) << ", " << Op::join(parameters, ", ")
+           << ")";
         return ss.str();
     }
 
diff --git a/src/imex/Exporter.cpp b/src/imex/Exporter.cpp
index 8f5d9b6..cd24bf0 100644
--- a/src/imex/Exporter.cpp
+++ b/src/imex/Exporter.cpp
@@ -20,6 +20,7 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 #include <fstream>
 
 #include "fuzzylite/Exception.h"
+#include "fuzzylite/Operation.h"
 
 namespace fuzzylite {
 
@@ -35,4 +36,8 @@ namespace fuzzylite {
         writer.close();
     }
 
+    std::string Exporter::quoted(const std::string& text) {
+        return "\"" + Op::findReplace(Op::findReplace(text, "\\", "\\\\"), "\"", "\\\"") + "\"";
+    }
+
 }
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 62618e3..da1d35b 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -41,8 +41,8 @@ namespace fuzzylite {
         std::ostringstream ss;
         ss << "//Code automatically generated with " << fuzzylite::library() << ".\n\n";
         ss << "Engine engine = new Engine();\n";
-        ss << "engine.setName(\"" << engine->getName() << "\");\n";
-        ss << "engine.setDescription(\"" << engine->getDescription() << "\");\n";
+        ss << "engine.setName(" << quoted(engine->getName()) << ");\n";
+        ss << "engine.setDescription(" << quoted(engine->getDescription()) << ");\n";
         ss << "\n";
 
         for (std::size_t i = 0; i < engine->numberOfInputVariables(); ++i)
@@ -73,8 +73,8 @@ namespace fuzzylite {
             }
         }
         ss << "InputVariable " << name << " = new InputVariable();\n";
-        ss << name << ".setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << ".setName(" << quoted(inputVariable->getName()) << ");\n";
+        ss << name << ".setDescription(" << quoted(inputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -101,8 +101,8 @@ namespace fuzzylite {
             }
         }
         ss << "OutputVariable " << name << " = new OutputVariable();\n";
-        ss << name << ".setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << ".setName(" << quoted(outputVariable->getName()) << ");\n";
+        ss << name << ".setDescription(" << quoted(outputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -135,8 +135,8 @@ namespace fuzzylite {
         }
 
         ss << "RuleBlock " << name << " = new RuleBlock();\n";
-        ss << name << ".setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << ".setName(" << quoted(ruleBlock->getName()) << ");\n";
+        ss << name << ".setDescription(" << quoted(ruleBlock->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << ".setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
@@ -144,7 +144,7 @@ namespace fuzzylite {
         ss << name << ".setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t i = 0; i < ruleBlock->numberOfRules(); ++i) {
             Rule* rule = ruleBlock->getRule(i);
-            ss << name << ".addRule(Rule.parse(\"" << rule->getText() << "\", engine));\n";
+            ss << name << ".addRule(Rule.parse(" << quoted(rule->getText()) << ", engine));\n";
         }
         ss << "engine.addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -157,21 +157,21 @@ namespace fuzzylite {
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
             std::vector<scalar> xy;
-            ss << term->className() << ".create(\"" << term->getName() << "\", "
+            ss << term->className() << ".create(" << quoted(term->getName()) << ", "
                << toString(Discrete::toVector(discrete->xy())) << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
-               << "\", engine)";
+            ss << term->className() << ".create(" << quoted(term->getName()) << ", " << quoted(function->getFormula())
+               << ", engine)";
             return ss.str();
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
+            ss << term->className() << ".create(" << quoted(term->getName()) << ", " << "engine, "
                << toString(linear->coefficients()) << ")";
             return ss.str();
         }
@@ -183,7 +183,7 @@ namespace fuzzylite {
             if (not Op::isFinite(value))
                 parameters.at(i) = toString(value);
         }
-        ss << "new " << term->className() << "(\"" << term->getName() << "\", " << Op::join(parameters, ", ") << ")";
+        ss << "new " << term->className() << "(" << quoted(term->getName()) << ", " << Op::join(parameters, ", ") << ")";
         return ss.str();
     }
 
diff --git a/src/imex/RScriptExporter.cpp b/src/imex/RScriptExporter.cpp
index eca605f..10ec5dc 100644
--- a/src/imex/RScriptExporter.cpp
+++ b/src/imex/RScriptExporter.cpp
@@ -212,10 +212,10 @@ namespace fuzzylite {
         writer << "#Code automatically generated with " << fuzzylite::library() << ".\n\n"
                << "library(ggplot2);\n"
                << "\n";
-        writer << "engine.name = \"" << engine->getName() << "\"\n";
+        writer << "engine.name = " << quoted(engine->getName()) << "\n";
         if (not engine->getDescription().empty())
-            writer << "engine.description = \"" << engine->getDescription() << "\"\n";
-        writer << "engine.fll = \"" << FllExporter().toString(engine) << "\"\n\n";
+            writer << "engine.description = " << quoted(engine->getDescription()) << "\n";
+        writer << "engine.fll = " << quoted(FllExporter().toString(engine)) << "\n\n";
     }
 
     void RScriptExporter::writeScriptPlots(
-- 
2.43.0


From 201c0807ab59765afcba1e61ebdb18b4e8ba0b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 19/23] fix: restarting in the interactive console discards the
 current inputs

---
 src/Console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index 33b8d3c..d9e75ff 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -398,7 +398,7 @@ namespace fuzzylite {
                 case 'R':
                     engine->restart();
                     buffer << "#[Restart]";
-                    continue;  // fall through
+                    // fall through
                 case 'd':
                 case 'D':
                     inputValues.clear();
-- 
2.43.0


From 9e6e9a2d6ccc227581841c2b4efb49b48beaf84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 20/23] fix: release every expression of an antecedent that is
 refused

---
 src/rule/Antecedent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rule/Antecedent.cpp b/src/rule/Antecedent.cpp
index 8aba275..706997f 100644
--- a/src/rule/Antecedent.cpp
+++ b/src/rule/Antecedent.cpp
@@ -310,7 +310,7 @@ namespace fuzzylite {
                 throw Exception(ex.str(), FL_AT);
             }
         } catch (...) {
-            for (std::size_t i = 0; i < expressionStack.size(); ++i) {
+            while (not expressionStack.empty()) {
                 delete expressionStack.top();
                 expressionStack.pop();
             }
-- 
2.43.0


From 4b76b4980b5eef4f280ad44e2465cc1b29c68471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 21/23] fix: release the activation or defuzzifier whose
 parameters are refused by the FLL importer

---
 src/imex/FllImporter.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/imex/FllImporter.cpp b/src/imex/FllImporter.cpp
index efbb374..cf88a3f 100644
--- a/src/imex/FllImporter.cpp
+++ b/src/imex/FllImporter.cpp
@@ -278,7 +278,8 @@ namespace fuzzylite {
         if (name == "none")
             return FactoryManager::instance()->activation()->constructObject("");
         std::vector<std::string> tokens = Op::split(name, " ");
-        Activation* result = FactoryManager::instance()->activation()->constructObject(tokens.front());
+        FL_unique_ptr<Activation> result;
+        result.reset(FactoryManager::instance()->activation()->constructObject(tokens.front()));
 
         std::ostringstream parameters;
         for (std::size_t i = 1; i < tokens.size(); ++i) {
@@ -287,7 +288,7 @@ namespace fuzzylite {
                 parameters << " ";
         }
         result->configure(parameters.str());
-        return result;
+        return result.release();
     }
 
     Defuzzifier* FllImporter::parseDefuzzifier(const std::string& text) const {
@@ -295,12 +296,14 @@ namespace fuzzylite {
         std::string name = parameters.at(0);
         if (name == "none")
             return FactoryManager::instance()->defuzzifier()->constructObject("");
-        Defuzzifier* defuzzifier = FactoryManager::instance()->defuzzifier()->constructObject(name);
+        FL_unique_ptr<Defuzzifier> defuzzifier;
+        defuzzifier.reset(FactoryManager::instance()->defuzzifier()->constructObject(name));
         if (parameters.size() > 1) {
             std::string parameter(parameters.at(1));
-            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier)) {
+            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier.get())) {
                 integralDefuzzifier->setResolution((int)Op::toScalar(parameter));
-            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier)) {
+            } else if (WeightedDefuzzifier* weightedDefuzzifier
+                       = dynamic_cast<WeightedDefuzzifier*>(defuzzifier.get())) {
                 WeightedDefuzzifier::Type type = WeightedDefuzzifier::Automatic;
                 if (parameter == "Automatic")
                     type = WeightedDefuzzifier::Automatic;
@@ -315,7 +318,7 @@ namespace fuzzylite {
                 weightedDefuzzifier->setType(type);
             }
         }
-        return defuzzifier;
+        return defuzzifier.release();
     }
 
     std::pair<scalar, scalar> FllImporter::parseRange(const std::string& text) const {
-- 
2.43.0


From b4988d94a13eb5e40053422596f5bc9e0485b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 22/23] fix: release the operators already made when an engine
 is configured with an unknown name

---
 src/Engine.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index dbb90a1..024152a 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -155,20 +155,20 @@ namespace fuzzylite {
         DefuzzifierFactory* defuzzFactory = FactoryManager::instance()->defuzzifier();
         ActivationFactory* activationFactory = FactoryManager::instance()->activation();
 
-        TNorm* conjunctionObject = tnormFactory->constructObject(conjunction);
-        SNorm* disjunctionObject = snormFactory->constructObject(disjunction);
-        TNorm* implicationObject = tnormFactory->constructObject(implication);
-        SNorm* aggregationObject = snormFactory->constructObject(aggregation);
-        Defuzzifier* defuzzifierObject = defuzzFactory->constructObject(defuzzifier);
-        Activation* activationObject = activationFactory->constructObject(activation);
+        FL_unique_ptr<TNorm> conjunctionObject(tnormFactory->constructObject(conjunction));
+        FL_unique_ptr<SNorm> disjunctionObject(snormFactory->constructObject(disjunction));
+        FL_unique_ptr<TNorm> implicationObject(tnormFactory->constructObject(implication));
+        FL_unique_ptr<SNorm> aggregationObject(snormFactory->constructObject(aggregation));
+        FL_unique_ptr<Defuzzifier> defuzzifierObject(defuzzFactory->constructObject(defuzzifier));
+        FL_unique_ptr<Activation> activationObject(activationFactory->constructObject(activation));
 
         configure(
-            conjunctionObject,
-            disjunctionObject,
-            implicationObject,
-            aggregationObject,
-            defuzzifierObject,
-            activationObject
+            conjunctionObject.release(),
+            disjunctionObject.release(),
+            implicationObject.release(),
+            aggregationObject.release(),
+            defuzzifierObject.release(),
+            activationObject.release()
         );
     }
 
-- 
2.43.0


From 1343b4a7332d5b926ea591617fbab842e53e3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 23/23] fix: release the nodes of a formula that is refused

---
 src/term/Function.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index 867e447..da795b9 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -609,7 +609,14 @@ namespace fuzzylite {
             throw Exception("[function error] formula is empty", FL_AT);
         std::string postfix = toPostfix(formula);
 
-        std::stack<Node*> stack;
+        struct NodeStack : public std::stack<Node*> {
+            ~NodeStack() {
+                while (not empty()) {
+                    delete top();
+                    pop();
+                }
+            }
+        } stack;
 
         std::istringstream tokenizer(postfix);
         std::string token;
@@ -654,7 +661,9 @@ namespace fuzzylite {
         if (stack.size() != 1)
             throw Exception("[function error] ill-formed formula <" + formula + ">", FL_AT);
 
-        return stack.top();
+        Node* result = stack.top();
+        stack.pop();
+        return result;
     }
 
 }
-- 
2.43.0

