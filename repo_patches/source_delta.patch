From 0d8eee7a0c840a5d4aebbf8a6f6a61d12f6b3b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 01/38] fix: looking up a rule at a negative index gives no
 rule instead of throwing

---
 oclint-core/lib/RuleSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-core/lib/RuleSet.cpp b/oclint-core/lib/RuleSet.cpp
index b17f7fc..dfac277 100644
--- a/oclint-core/lib/RuleSet.cpp
+++ b/oclint-core/lib/RuleSet.cpp
@@ -24,7 +24,7 @@ int RuleSet::numberOfRules()
 
 RuleBase* RuleSet::getRuleAtIndex(int index)
 {
-    if (index >= numberOfRules())
+    if (index < 0 || index >= numberOfRules())
     {
         return nullptr; // Better throwing an exception
     }
-- 
2.43.0


From 5ae5e63b513a42a9e191c00922ee8cb8a8f6e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 02/38] fix: the JSON report escapes texts as JSON requires

---
 oclint-reporters/reporters/JSONReporter.cpp | 42 ++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index ec4ede3..78c673d 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -59,6 +59,46 @@ public:
         writeKeyValue(out, "timestamp", now);
     }
 
+    std::string jsonEscape(const std::string &data)
+    {
+        std::string output;
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '"':
+                    output += "\\\"";
+                    break;
+                case '\\':
+                    output += "\\\\";
+                    break;
+                case '\n':
+                    output += "\\n";
+                    break;
+                case '\r':
+                    output += "\\r";
+                    break;
+                case '\t':
+                    output += "\\t";
+                    break;
+                default:
+                    if (c >= 0 && c < 0x20)
+                    {
+                        const char *hexDigits = "0123456789abcdef";
+                        output += "\\u00";
+                        output += hexDigits[c / 16];
+                        output += hexDigits[c % 16];
+                    }
+                    else
+                    {
+                        output += c;
+                    }
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeKey(std::ostream &out, std::string key)
     {
         out << "\"" << key << "\":";
@@ -75,7 +115,7 @@ public:
     void writeKeyValue(std::ostream &out, std::string key, std::string value, bool last = false)
     {
         writeKey(out, key);
-        out << "\"" << value << "\"";
+        out << "\"" << jsonEscape(value) << "\"";
         writeComma(out, last);
     }
 
-- 
2.43.0


From 18cf1084723cab75600ad9c8e8be3c479094a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 03/38] fix: the XML report escapes attribute values as XML
 requires

---
 oclint-reporters/reporters/XMLReporter.cpp | 41 ++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 4e44cba..48a576b 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -89,6 +89,47 @@ public:
         out << "></violation>";
     }
 
+    std::string xmlEscape(const std::string &data)
+    {
+        std::string output;
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
+                case '\t':
+                    output += "&#9;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
+    void writeViolationAttribute(std::ostream &out, std::string key, std::string value)
+    {
+        out << " " << key << "=\"" << xmlEscape(value) << "\"";
+    }
+
     template <typename T>
     void writeViolationAttribute(std::ostream &out, std::string key, T value)
     {
-- 
2.43.0


From 6d7e2c757ea6fbeeae5161442dc4ffa9344c422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 04/38] fix: the XML report counts the month from one

---
 oclint-reporters/reporters/XMLReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 48a576b..3a9a2f4 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -54,7 +54,7 @@ public:
             28,
             "%04i-%02i-%02iT%02i:%02i:%02iZ",
             tmNow->tm_year + 1900,
-            tmNow->tm_mon,
+            tmNow->tm_mon + 1,
             tmNow->tm_mday,
             tmNow->tm_hour,
             tmNow->tm_min,
-- 
2.43.0


From 4281a98a7ccc24d5a07713ce164ea0002bfb33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 05/38] fix: the PMD report escapes path, rule and category as
 XML requires

---
 oclint-reporters/reporters/PMDReporter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oclint-reporters/reporters/PMDReporter.cpp b/oclint-reporters/reporters/PMDReporter.cpp
index 2ba9cd5..9db16da 100644
--- a/oclint-reporters/reporters/PMDReporter.cpp
+++ b/oclint-reporters/reporters/PMDReporter.cpp
@@ -29,8 +29,8 @@ private:
         void write(std::ostream &out) const
         {
             out << "priority=\"" << priority << "\" ";
-            out << "rule=\"" << name << "\" ";
-            out << "ruleset=\"" << category << "\" ";
+            out << "rule=\"" << xmlEscape(name) << "\" ";
+            out << "ruleset=\"" << xmlEscape(category) << "\" ";
         }
     };
 
@@ -81,7 +81,7 @@ private:
                         const Violation &violation,
                         const PMDRuleDescription *ruleDescription)
     {
-        out << "<file name=\"" << violation.path << "\">" << std::endl;
+        out << "<file name=\"" << xmlEscape(violation.path) << "\">" << std::endl;
         out << "<violation ";
         out << "begincolumn=\"" << violation.startColumn << "\" ";
         out << "endcolumn=\"" << violation.endColumn << "\" ";
@@ -97,7 +97,7 @@ private:
         out << "</file>" << std::endl;
     }
 
-    std::string xmlEscape(const std::string &data)
+    static std::string xmlEscape(const std::string &data)
     {
         std::string output;
         output.reserve(data.size());
-- 
2.43.0


From 09e93a0420435ac83164f0fbdcfe5125f8437a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 06/38] fix: the HTML report escapes texts as HTML requires

---
 oclint-reporters/reporters/HTMLReporter.cpp | 43 +++++++++++++++++----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/oclint-reporters/reporters/HTMLReporter.cpp b/oclint-reporters/reporters/HTMLReporter.cpp
index df67afa..d415b4b 100644
--- a/oclint-reporters/reporters/HTMLReporter.cpp
+++ b/oclint-reporters/reporters/HTMLReporter.cpp
@@ -66,25 +66,52 @@ public:
             << "OCLint v" << version << "</a>.</p>";
     }
 
+    std::string htmlEscape(const std::string &data)
+    {
+        std::string output;
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeViolation(std::ostream &out, const Violation &violation)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         const RuleBase *rule = violation.rule;
-        out << "<td>" << rule->name() << "</td>"
-            << "<td>" << rule->category() << "</td>"
+        out << "<td>" << htmlEscape(rule->name()) << "</td>"
+            << "<td>" << htmlEscape(rule->category()) << "</td>"
             << "<td class='priority" << rule->priority() << "'>"
             << rule->priority() << "</td>"
-            << "<td>" << violation.message << "</td></tr>";
+            << "<td>" << htmlEscape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerErrorOrWarning(std::ostream &out,
         const Violation &violation, std::string level)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         out << "<td>compiler " << level << "</td><td></td><td class='cmplr-" << level << "'>"
-            << level << "</td><td>" << violation.message << "</td></tr>";
+            << level << "</td><td>" << htmlEscape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerDiagnostics(std::ostream &out, std::vector<Violation> violations,
@@ -100,10 +127,10 @@ public:
     {
         for (const auto& violation : violations)
         {
-            out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+            out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
                 << ":" << violation.startColumn << "</td>";
             out << "<td>clang static analyzer</td><td></td><td class='checker-bug'>"
-                << "checker bug</td><td>" << violation.message << "</td></tr>";
+                << "checker bug</td><td>" << htmlEscape(violation.message) << "</td></tr>";
         }
     }
 
-- 
2.43.0


From 70c6b5953a4fb23fb3132eb1979741f47c5ffa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 07/38] fix: NPath complexity overflows int for functions with
 many paths

---
 oclint-metrics/lib/NPathComplexityMetric.cpp | 30 +++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 15bb38e..72c37b9 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -1,14 +1,22 @@
 #include "oclint/metric/NPathComplexityMetric.h"
 
+#include <climits>
+
 using namespace oclint;
 
+// the number of paths grows exponentially, INT_MAX stands for any number beyond it
+static int bounded(long long npath)
+{
+    return npath > INT_MAX ? INT_MAX : static_cast<int>(npath);
+}
+
 int NPathComplexityMetric::nPath(clang::CompoundStmt *stmt)
 {
     int npath = 1;
     for (clang::CompoundStmt::body_iterator body = stmt->body_begin(), bodyEnd = stmt->body_end();
         body != bodyEnd; body++)
     {
-        npath *= nPath(*body);
+        npath = bounded(1LL * npath * nPath(*body));
     }
     return npath;
 }
@@ -21,17 +29,17 @@ int NPathComplexityMetric::nPath(clang::IfStmt *stmt)
     {
         nPathElseStmt = nPath(elseStmt);
     }
-    return nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt;
+    return bounded(0LL + nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt);
 }
 
 int NPathComplexityMetric::nPath(clang::WhileStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return bounded(0LL + nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1);
 }
 
 int NPathComplexityMetric::nPath(clang::DoStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return bounded(0LL + nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1);
 }
 
 int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
@@ -59,8 +67,8 @@ int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
     // As a conclusion, in my opinion, same logic in different formats should not reduce
     // the complexity. However, here, I will follow Nejmeh's NPath
 
-    return nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
-        + nPath(stmt->getBody()) + 1;
+    return bounded(0LL + nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
+        + nPath(stmt->getBody()) + 1);
 }
 
 int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
@@ -73,7 +81,7 @@ int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
     // So, convert to same logic in for statement, we assume the NPath complexity as below
     // NP(Foreach) := NP((for-range)) + 2
 
-    return nPath(stmt->getBody()) + 2;
+    return bounded(0LL + nPath(stmt->getBody()) + 2);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
@@ -82,7 +90,7 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     clang::Stmt *body = stmt->getBody();
     if(!clang::isa<clang::CompoundStmt>(body))
     {
-        return nPathSwitchStmt + nPath(body);
+        return bounded(0LL + nPathSwitchStmt + nPath(body));
     }
     clang::CompoundStmt *compound = clang::dyn_cast<clang::CompoundStmt>(body);
     for (clang::CompoundStmt::body_iterator bodyStmt = compound->body_begin(),
@@ -90,15 +98,15 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     {
         if (clang::isa<clang::SwitchCase>(*bodyStmt))
         {
-            nPathSwitchStmt += internalNPath;
+            nPathSwitchStmt = bounded(0LL + nPathSwitchStmt + internalNPath);
             internalNPath = nPath(*bodyStmt);
         }
         else
         {
-            internalNPath *= nPath(*bodyStmt);
+            internalNPath = bounded(1LL * internalNPath * nPath(*bodyStmt));
         }
     }
-    return nPathSwitchStmt + internalNPath;
+    return bounded(0LL + nPathSwitchStmt + internalNPath);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
-- 
2.43.0


From fc19eeb4e943fe57c0552683791bf63c8e5afc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 08/38] fix: settings read from a configuration file refer to
 freed memory

---
 oclint-driver/include/oclint/ConfigFile.h | 25 ++++++++++++-----------
 oclint-driver/lib/ConfigFile.cpp          | 15 +++++++-------
 oclint-driver/lib/Options.cpp             | 10 ++++-----
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/oclint-driver/include/oclint/ConfigFile.h b/oclint-driver/include/oclint/ConfigFile.h
index 101a12a..d79a0c6 100644
--- a/oclint-driver/include/oclint/ConfigFile.h
+++ b/oclint-driver/include/oclint/ConfigFile.h
@@ -1,6 +1,7 @@
 #ifndef OCLINT_CONFIGFILE_H
 #define OCLINT_CONFIGFILE_H
 
+#include <string>
 #include <vector>
 
 #include <llvm/Support/YAMLTraits.h>
@@ -14,12 +15,12 @@ namespace option
 class RuleConfigurationPair
 {
 private:
-    llvm::StringRef _key;
-    llvm::StringRef _value;
+    std::string _key;
+    std::string _value;
 
 public:
-    const llvm::StringRef &key() const;
-    const llvm::StringRef &value() const;
+    const std::string &key() const;
+    const std::string &value() const;
 
     void mapping(llvm::yaml::IO& io);
 };
@@ -30,12 +31,12 @@ class ConfigFile
 {
 private:
     std::string _path;
-    std::vector<llvm::StringRef> _rules;
-    std::vector<llvm::StringRef> _disableRules;
-    std::vector<llvm::StringRef> _rulePaths;
+    std::vector<std::string> _rules;
+    std::vector<std::string> _disableRules;
+    std::vector<std::string> _rulePaths;
     std::vector<RuleConfigurationPair> _ruleConfigurations;
-    llvm::StringRef _output;
-    llvm::StringRef _reportType;
+    std::string _output;
+    std::string _reportType;
     int _maxP1;
     int _maxP2;
     int _maxP3;
@@ -47,9 +48,9 @@ public:
     explicit ConfigFile(const std::string &path);
 
     const std::string &path() const;
-    const std::vector<llvm::StringRef> &rules() const;
-    const std::vector<llvm::StringRef> &disableRules() const;
-    const std::vector<llvm::StringRef> &rulePaths() const;
+    const std::vector<std::string> &rules() const;
+    const std::vector<std::string> &disableRules() const;
+    const std::vector<std::string> &rulePaths() const;
     const std::vector<RuleConfigurationPair> &ruleConfigurations() const;
     std::optional<std::string> output() const;
     std::optional<std::string> reportType() const;
diff --git a/oclint-driver/lib/ConfigFile.cpp b/oclint-driver/lib/ConfigFile.cpp
index 1e002ec..a19a412 100644
--- a/oclint-driver/lib/ConfigFile.cpp
+++ b/oclint-driver/lib/ConfigFile.cpp
@@ -31,12 +31,12 @@ struct MappingTraits<RuleConfigurationPair>
 }
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::key() const
+const std::string &oclint::option::RuleConfigurationPair::key() const
 {
     return _key;
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::value() const
+const std::string &oclint::option::RuleConfigurationPair::value() const
 {
     return _value;
 }
@@ -111,17 +111,17 @@ const std::string &oclint::option::ConfigFile::path() const
     return _path;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rules() const
+const std::vector<std::string> &oclint::option::ConfigFile::rules() const
 {
     return _rules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::disableRules() const
+const std::vector<std::string> &oclint::option::ConfigFile::disableRules() const
 {
     return _disableRules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rulePaths() const
+const std::vector<std::string> &oclint::option::ConfigFile::rulePaths() const
 {
     return _rulePaths;
 }
@@ -131,10 +131,9 @@ const std::vector<RuleConfigurationPair> &oclint::option::ConfigFile::ruleConfig
     return _ruleConfigurations;
 }
 
-static std::optional<std::string> createOptionalString(const llvm::StringRef &value)
+static std::optional<std::string> createOptionalString(const std::string &value)
 {
-    const std::string &string = value.str();
-    return string.size() ? std::optional<std::string>(string) : std::optional<std::string>();
+    return value.size() ? std::optional<std::string>(value) : std::optional<std::string>();
 }
 
 std::optional<std::string> oclint::option::ConfigFile::output() const
diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 8622136..789647e 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -143,22 +143,22 @@ static void processConfigFile(const std::string &path)
     oclint::option::ConfigFile config(path);
     for (const oclint::option::RuleConfigurationPair &ruleConfig : config.ruleConfigurations())
     {
-        consumeRuleConfiguration(ruleConfig.key().str(), ruleConfig.value().str());
+        consumeRuleConfiguration(ruleConfig.key(), ruleConfig.value());
     }
-    for (const llvm::StringRef &rulePath : config.rulePaths())
+    for (const std::string &rulePath : config.rulePaths())
     {
-        argRulesPath.push_back(rulePath.str());
+        argRulesPath.push_back(rulePath);
     }
     std::vector<std::string> enableRules;
     for (auto rule : config.rules())
     {
-        enableRules.push_back(rule.str());
+        enableRules.push_back(rule);
     }
     filter.enableRules(enableRules.begin(), enableRules.end());
     std::vector<std::string> disableRules;
     for (auto rule : config.disableRules())
     {
-        disableRules.push_back(rule.str());
+        disableRules.push_back(rule);
     }
     filter.disableRules(disableRules.begin(), disableRules.end());
 
-- 
2.43.0


From 9399325c4fb2b1485f358133e2715eff9b78ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 09/38] fix: report a switch with a missing break once

When a label followed an unfinished part the switch was reported in the loop
and, since the flag was still unset, a second time after it.
---
 .../rules/convention/MissingBreakInSwitchStatementRule.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/convention/MissingBreakInSwitchStatementRule.cpp b/oclint-rules/rules/convention/MissingBreakInSwitchStatementRule.cpp
index 3dc6cc1..d1b0654 100644
--- a/oclint-rules/rules/convention/MissingBreakInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/MissingBreakInSwitchStatementRule.cpp
@@ -136,7 +136,7 @@ public:
                 if (!breakFound)
                 {
                     addViolation(switchStmt, this);
-                    break;
+                    return true;
                 }
 
                 FindingBreak findingBreak;
-- 
2.43.0


From e8e63c6dc2630d193f41b4d6346c30a9e4c62dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 10/38] fix: count only the cases of the switch itself

Case labels of switch statements nested in a switch were counted for the outer
one too, so that an outer switch with too few branches was not reported.
---
 .../TooFewBranchesInSwitchStatementRule.cpp   | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
index ca132e8..7dd2e7b 100644
--- a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
@@ -9,25 +9,22 @@ using namespace oclint;
 class TooFewBranchesInSwitchStatementRule :
     public AbstractASTVisitorRule<TooFewBranchesInSwitchStatementRule>
 {
-    class CountCaseStmts : public RecursiveASTVisitor<CountCaseStmts>
+private:
+    // counts the labels of this switch, leaving out those of switches nested in it
+    int numberOfCases(SwitchStmt *switchStmt)
     {
-    private:
-        int _count;
-
-    public:
-        int count(SwitchStmt *switchStmt)
+        int count = 0;
+        SwitchCase *currentSwitchCase = switchStmt->getSwitchCaseList();
+        while (currentSwitchCase)
         {
-            _count = 0;
-            (void) /* explicitly ignore the return of this function */ TraverseStmt(switchStmt);
-            return _count;
+            if (isa<CaseStmt>(currentSwitchCase))
+            {
+                count++;
+            }
+            currentSwitchCase = currentSwitchCase->getNextSwitchCase();
         }
-
-        bool VisitCaseStmt(CaseStmt *)
-        {
-            _count++;
-            return true;
-        }
-    };
+        return count;
+    }
 
 public:
     virtual const string name() const override
@@ -86,8 +83,7 @@ public:
 
     bool VisitSwitchStmt(SwitchStmt *switchStmt)
     {
-        CountCaseStmts countCaseStmts;
-        int numberOfCaseStmts = countCaseStmts.count(switchStmt);
+        int numberOfCaseStmts = numberOfCases(switchStmt);
         int threshold = RuleConfiguration::intForKey("MINIMUM_CASES_IN_SWITCH", 3);
         if (numberOfCaseStmts < threshold)
         {
-- 
2.43.0


From 67f4f6300db2b40377425934bb78701ff3a3474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 11/38] fix: assignments to a variable that hides a parameter
 are not parameter reassignments

---
 .../convention/ParameterReassignmentRule.cpp  | 36 ++++++++-----------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
index 3c0d6c8..fafc484 100644
--- a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
+++ b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
@@ -10,13 +10,13 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
     class BinaryOperatorAnalyzer : public RecursiveASTVisitor<BinaryOperatorAnalyzer>
     {
     private:
-        vector<string> _names;
+        vector<ParmVarDecl*> _params;
         vector<BinaryOperator*> _binaryOperators;
 
     public:
-        vector<BinaryOperator*> analyze(Decl *decl, vector<string> &names)
+        vector<BinaryOperator*> analyze(Decl *decl, vector<ParmVarDecl*> &params)
         {
-            _names = names;
+            _params = params;
             _binaryOperators.clear();
             (void) /* explicitly ignore the return of this function */ TraverseDecl(decl);
             return _binaryOperators;
@@ -28,9 +28,9 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
             if (binaryOperator->getOpcode() == BO_Assign && leftExpr && isa<DeclRefExpr>(leftExpr))
             {
                 DeclRefExpr *declRefExpr = dyn_cast<DeclRefExpr>(leftExpr);
-                for (const auto& name : _names)
+                for (const auto& param : _params)
                 {
-                    if (declRefExpr->getFoundDecl()->getNameAsString() == name)
+                    if (declRefExpr->getDecl() == param)
                     {
                         _binaryOperators.push_back(binaryOperator);
                         break;
@@ -42,12 +42,12 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
     };
 
 private:
-    void locateParamNames(Decl *decl, vector<string> &names)
+    void locateReassignments(Decl *decl, vector<ParmVarDecl*> &params)
     {
-        if (!names.empty())
+        if (!params.empty())
         {
             BinaryOperatorAnalyzer biOpAnalyzer;
-            vector<BinaryOperator*> binaryOperators = biOpAnalyzer.analyze(decl, names);
+            vector<BinaryOperator*> binaryOperators = biOpAnalyzer.analyze(decl, params);
             for (const auto& binaryOperator : binaryOperators)
             {
                 addViolation(binaryOperator, this);
@@ -100,33 +100,25 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        vector<string> names;
+        vector<ParmVarDecl*> params;
         for (size_t i = 0; i != decl->getNumParams(); ++i)
         {
-            ParmVarDecl *parmVarDecl = decl->getParamDecl(i);
-            if (parmVarDecl->getNameAsString() != "")
-            {
-                names.push_back(parmVarDecl->getNameAsString());
-            }
+            params.push_back(decl->getParamDecl(i));
         }
-        locateParamNames(decl, names);
+        locateReassignments(decl, params);
 
         return true;
     }
 
     bool VisitObjCMethodDecl(ObjCMethodDecl *decl)
     {
-        vector<string> names;
+        vector<ParmVarDecl*> params;
         for (ObjCMethodDecl::param_iterator param = decl->param_begin(),
             paramEnd = decl->param_end(); param != paramEnd; param++)
         {
-            ParmVarDecl *parmVarDecl = *param;
-            if (parmVarDecl->getNameAsString() != "")
-            {
-                names.push_back(parmVarDecl->getNameAsString());
-            }
+            params.push_back(*param);
         }
-        locateParamNames(decl, names);
+        locateReassignments(decl, params);
 
         return true;
     }
-- 
2.43.0


From 3150fc589ed45e32c0ade61fab2f50724965fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 12/38] fix: conditions that depend on template parameters have
 no constant value

---
 oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp | 3 ++-
 oclint-rules/rules/basic/ConstantIfExpressionRule.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp b/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
index 862928f..17614da 100644
--- a/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
@@ -54,7 +54,8 @@ public:
         Expr *conditionExpr = conditionalOperator->getCond();
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (conditionExpr && !conditionExpr->isValueDependent() &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
diff --git a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
index a012e00..b810ad1 100644
--- a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
+++ b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
@@ -60,7 +60,8 @@ public:
         Expr *conditionExpr = ifStmt->getCond();
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (conditionExpr && !conditionExpr->isValueDependent() &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
-- 
2.43.0


From 77fa6098834b5c45d79ae1c75f6e2bcde23b3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 13/38] fix: an if consteval statement has no condition to test
 for null

---
 .../rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
index 8734f1a..696357a 100644
--- a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
+++ b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
@@ -150,7 +150,7 @@ public:
 
     bool VisitIfStmt(IfStmt* ifStmt)
     {
-        if (ifStmt == nullptr || ifStmt->getElse() != nullptr)
+        if (ifStmt == nullptr || ifStmt->getElse() != nullptr || ifStmt->getCond() == nullptr)
         {
             return true;
         }
-- 
2.43.0


From 2de3d5c772a3f123682ea585dce4287d11f4638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 14/38] fix: assignments to different variables do not make an
 if statement redundant

---
 oclint-rules/rules/redundant/RedundantIfStatementRule.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
index 9f4b1cc..161f7c1 100644
--- a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
@@ -1,5 +1,6 @@
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleSet.h"
+#include "oclint/util/ASTUtil.h"
 
 using namespace std;
 using namespace clang;
@@ -71,7 +72,10 @@ private:
 
     bool doesBinaryOperatorsViolateRule(BinaryOperator *first, BinaryOperator *second)
     {
-        return first && second && isNotEquals(first->getRHS(), second->getRHS());
+        return first && second &&
+            first->getOpcode() == BO_Assign && second->getOpcode() == BO_Assign &&
+            areSameExpr(*_carrier->getASTContext(), *first->getLHS(), *second->getLHS()) &&
+            isNotEquals(first->getRHS(), second->getRHS());
     }
 
 public:
-- 
2.43.0


From cb80eec9cfab935a59ca63f921176b2fcb036d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 15/38] fix: a returned variable is redundant only if it is the
 one declared before

---
 oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
index b3539cf..8d6f7ae 100644
--- a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
@@ -89,7 +89,7 @@ public:
         {
             NamedDecl *returnDeclRef = extractReturnDeclRef(compoundStmt);
             NamedDecl *namedDecl = extractNamedDecl(compoundStmt);
-            if (returnDeclRef && namedDecl && returnDeclRef->getName() == namedDecl->getName())
+            if (returnDeclRef && namedDecl && returnDeclRef == namedDecl)
             {
                 addViolation(namedDecl, this);
             }
-- 
2.43.0


From ddad5bb48e07e5ea40f001431d02162a19502e20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 16/38] fix: null checks compare variables, not their names

---
 .../rules/abstract/AbstractNullCheckRule.h    | 46 +++++++++----------
 .../rules/basic/BrokenNullCheckRule.cpp       | 10 ++--
 .../rules/basic/MisplacedNullCheckRule.cpp    | 10 ++--
 .../rules/redundant/RedundantNilCheckRule.cpp |  6 +--
 4 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/oclint-rules/rules/abstract/AbstractNullCheckRule.h b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
index dc0fe54..2077301 100644
--- a/oclint-rules/rules/abstract/AbstractNullCheckRule.h
+++ b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
@@ -85,73 +85,73 @@ protected:
         return isImplicitDeclRef(expr);
     }
 
-    std::string extractIdentifierFromImplicitCastExpr(clang::ImplicitCastExpr *implicitCastExpr)
+    clang::ValueDecl *extractDeclFromImplicitCastExpr(clang::ImplicitCastExpr *implicitCastExpr)
     {
         if (!implicitCastExpr)
         {
-            return "";
+            return nullptr;
         }
         if (implicitCastExpr->getCastKind() == clang::CK_PointerToBoolean)
         {
-            return extractIdentifierFromImplicitCastExpr(
+            return extractDeclFromImplicitCastExpr(
                 clang::dyn_cast_or_null<clang::ImplicitCastExpr>(implicitCastExpr->getSubExpr()));
         }
         clang::DeclRefExpr *declRefExpr =
             clang::dyn_cast_or_null<clang::DeclRefExpr>(implicitCastExpr->getSubExpr());
-        return declRefExpr ? declRefExpr->getFoundDecl()->getNameAsString() : "";
+        return declRefExpr ? declRefExpr->getDecl() : nullptr;
     }
 
-    std::string extractIdentifierFromBinaryOperator(clang::BinaryOperator *binaryOperator)
+    clang::ValueDecl *extractDeclFromBinaryOperator(clang::BinaryOperator *binaryOperator)
     {
         clang::Expr *refExpr = binaryOperator->getLHS();
         if (isNullToPointer(refExpr))
         {
             refExpr = binaryOperator->getRHS();
         }
-        return extractIdentifierFromImplicitCastExpr(
+        return extractDeclFromImplicitCastExpr(
             clang::dyn_cast_or_null<clang::ImplicitCastExpr>(refExpr));
     }
 
-    std::string extractIdentifierFromUnaryOperator(clang::UnaryOperator *unaryOperator)
+    clang::ValueDecl *extractDeclFromUnaryOperator(clang::UnaryOperator *unaryOperator)
     {
-        return extractIdentifierFromImplicitCastExpr(
+        return extractDeclFromImplicitCastExpr(
             clang::dyn_cast_or_null<clang::ImplicitCastExpr>(unaryOperator->getSubExpr()));
     }
 
-    std::string extractIdentifierFromExpr(clang::Expr *expr)
+    clang::ValueDecl *extractDeclFromExpr(clang::Expr *expr)
     {
         if (!expr)
         {
-            return "";
+            return nullptr;
         }
         if (clang::isa<clang::ImplicitCastExpr>(expr))
         {
-            return extractIdentifierFromImplicitCastExpr(
+            return extractDeclFromImplicitCastExpr(
                 clang::dyn_cast<clang::ImplicitCastExpr>(expr));
         }
         if (clang::isa<clang::BinaryOperator>(expr))
         {
-            return extractIdentifierFromBinaryOperator(
+            return extractDeclFromBinaryOperator(
                 clang::dyn_cast<clang::BinaryOperator>(expr));
         }
         if (clang::isa<clang::UnaryOperator>(expr))
         {
-            return extractIdentifierFromUnaryOperator(clang::dyn_cast<clang::UnaryOperator>(expr));
+            return extractDeclFromUnaryOperator(clang::dyn_cast<clang::UnaryOperator>(expr));
         }
-        return "";
+        return nullptr;
     }
 
     class VariableOfInterestInMemberExpr :
         public clang::RecursiveASTVisitor<VariableOfInterestInMemberExpr>
     {
     private:
-        std::string _variableName;
+        clang::ValueDecl *_variable;
         AbstractNullCheckRule *_rule;
 
     public:
-        bool hasVariableInExpr(std::string name, clang::Expr *expr, AbstractNullCheckRule *rule)
+        bool hasVariableInExpr(clang::ValueDecl *variable, clang::Expr *expr, AbstractNullCheckRule *rule)
         {
-            _variableName = name;
+            _variable = variable;
             _rule = rule;
             return !clang::RecursiveASTVisitor<VariableOfInterestInMemberExpr>::TraverseStmt(expr);
         }
@@ -160,8 +160,8 @@ protected:
         {
             if (memberExpr->isArrow())
             {
-                return _variableName !=
-                    _rule->extractIdentifierFromImplicitCastExpr(
+                return _variable !=
+                    _rule->extractDeclFromImplicitCastExpr(
                         clang::dyn_cast_or_null<clang::ImplicitCastExpr>(memberExpr->getBase()));
             }
             return true;
@@ -172,13 +172,13 @@ protected:
         public clang::RecursiveASTVisitor<VariableOfInterestInObjCMessageExpr>
     {
     private:
-        std::string _variableName;
+        clang::ValueDecl *_variable;
         AbstractNullCheckRule *_rule;
 
     public:
-        bool hasVariableInExpr(std::string name, clang::Expr *expr, AbstractNullCheckRule *rule)
+        bool hasVariableInExpr(clang::ValueDecl *variable, clang::Expr *expr, AbstractNullCheckRule *rule)
         {
-            _variableName = name;
+            _variable = variable;
             _rule = rule;
             return !clang::RecursiveASTVisitor<VariableOfInterestInObjCMessageExpr>::TraverseStmt(
                 expr);
@@ -186,7 +186,7 @@ protected:
 
         bool VisitObjCMessageExpr(clang::ObjCMessageExpr *memberExpr)
         {
-            return _variableName != _rule->extractIdentifierFromImplicitCastExpr(
+            return _variable != _rule->extractDeclFromImplicitCastExpr(
                 clang::dyn_cast_or_null<clang::ImplicitCastExpr>(
                     memberExpr->getInstanceReceiver()));
         }
diff --git a/oclint-rules/rules/basic/BrokenNullCheckRule.cpp b/oclint-rules/rules/basic/BrokenNullCheckRule.cpp
index 450e568..cde60ae 100644
--- a/oclint-rules/rules/basic/BrokenNullCheckRule.cpp
+++ b/oclint-rules/rules/basic/BrokenNullCheckRule.cpp
@@ -27,13 +27,13 @@ private:
 
     bool isSameVariableBroken(BinaryOperator *binaryOperator)
     {
-        string variableOfInterest = extractIdentifierFromExpr(binaryOperator->getLHS());
-        return variableOfInterest == "" ? false :
+        ValueDecl *variableOfInterest = extractDeclFromExpr(binaryOperator->getLHS());
+        return variableOfInterest &&
             hasVariableInExpr(variableOfInterest, binaryOperator->getRHS());
     }
 
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr *expr) = 0;
+    virtual bool hasVariableInExpr(ValueDecl *variableOfInterest, Expr *expr) = 0;
 
 public:
     bool VisitBinaryOperator(BinaryOperator *binaryOperator)
@@ -50,7 +50,7 @@ public:
 class BrokenNullCheckRule : public BrokenNullCheckBaseRule
 {
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr* expr)
+    virtual bool hasVariableInExpr(ValueDecl *variableOfInterest, Expr* expr)
         override
     {
         VariableOfInterestInMemberExpr seekingVariable;
@@ -112,7 +112,7 @@ public:
 class BrokenNilCheckRule : public BrokenNullCheckBaseRule
 {
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr* expr)
+    virtual bool hasVariableInExpr(ValueDecl *variableOfInterest, Expr* expr)
         override
     {
         VariableOfInterestInObjCMessageExpr seekingVariable;
diff --git a/oclint-rules/rules/basic/MisplacedNullCheckRule.cpp b/oclint-rules/rules/basic/MisplacedNullCheckRule.cpp
index c2e3a17..d66f459 100644
--- a/oclint-rules/rules/basic/MisplacedNullCheckRule.cpp
+++ b/oclint-rules/rules/basic/MisplacedNullCheckRule.cpp
@@ -27,13 +27,13 @@ private:
 
     bool isSameVariableMisplaced(BinaryOperator *binaryOperator)
     {
-        string variableOfInterest = extractIdentifierFromExpr(binaryOperator->getRHS());
-        return variableOfInterest == "" ? false :
+        ValueDecl *variableOfInterest = extractDeclFromExpr(binaryOperator->getRHS());
+        return variableOfInterest &&
             hasVariableInExpr(variableOfInterest, binaryOperator->getLHS());
     }
 
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr *expr) = 0;
+    virtual bool hasVariableInExpr(ValueDecl *variableOfInterest, Expr *expr) = 0;
 
 public:
     bool VisitBinaryOperator(BinaryOperator *binaryOperator)
@@ -50,7 +50,7 @@ public:
 class MisplacedNullCheckRule : public MisplacedNullCheckBaseRule
 {
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr* expr)
+    virtual bool hasVariableInExpr(ValueDecl *variableOfInterest, Expr* expr)
         override
     {
         VariableOfInterestInMemberExpr seekingVariable;
@@ -119,7 +119,7 @@ public:
 class MisplacedNilCheckRule : public MisplacedNullCheckBaseRule
 {
 protected:
-    virtual bool hasVariableInExpr(string variableOfInterest, Expr* expr)
+    virtual bool hasVariableInExpr(ValueDecl *variableOfInterest, Expr* expr)
         override
     {
         VariableOfInterestInObjCMessageExpr seekingVariable;
diff --git a/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp b/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp
index f948570..fa1073b 100644
--- a/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantNilCheckRule.cpp
@@ -26,7 +26,7 @@ private:
         return false;
     }
 
-    bool hasVariableInExpr(string variableOfInterest, Expr *expr)
+    bool hasVariableInExpr(ValueDecl *variableOfInterest, Expr *expr)
     {
         VariableOfInterestInObjCMessageExpr seekingVariable;
         return seekingVariable.hasVariableInExpr(variableOfInterest, expr, this);
@@ -34,8 +34,8 @@ private:
 
     bool isSameVariableBroken(BinaryOperator *binaryOperator)
     {
-        string variableOfInterest = extractIdentifierFromExpr(binaryOperator->getLHS());
-        return variableOfInterest == "" ? false :
+        ValueDecl *variableOfInterest = extractDeclFromExpr(binaryOperator->getLHS());
+        return variableOfInterest &&
             hasVariableInExpr(variableOfInterest, binaryOperator->getRHS());
     }
 
-- 
2.43.0


From 2857d9dce68eed98bbf898b4fba8b1ebad112fb3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 17/38] fix: annotations hide what is inside initialisers and
 types too

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 29 ++++++----------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 62deeb1..74d8b07 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -22,8 +22,8 @@ bool markedAsSuppress(const clang::Decl *decl, oclint::RuleBase *rule)
     return false;
 }
 
-template <typename T>
-bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::RuleBase *rule)
+bool markedParentsAsSuppress(
+    const clang::DynTypedNode &node, clang::ASTContext &context, oclint::RuleBase *rule)
 {
     clang::DynTypedNodeList parents = context.getParents(node);
     if (parents.empty())
@@ -31,33 +31,20 @@ bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::
         return false;
     }
 
-    const clang::DynTypedNode* dynTypedNode = parents.begin();
-    const clang::Decl *aDecl = dynTypedNode->get<clang::Decl>();
-    if (aDecl)
-    {
-        if (markedAsSuppress(aDecl, rule))
-        {
-            return true;
-        }
-        return markedParentsAsSuppress(*aDecl, context, rule);
-    }
-    const clang::Stmt *aStmt = dynTypedNode->get<clang::Stmt>();
-    if (aStmt)
-    {
-        return markedParentsAsSuppress(*aStmt, context, rule);
-    }
-
-    return false;
+    const clang::DynTypedNode &parent = *parents.begin();
+    return markedAsSuppress(parent.get<clang::Decl>(), rule)
+        || markedParentsAsSuppress(parent, context, rule);
 }
 
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    return markedAsSuppress(decl, rule) || markedParentsAsSuppress(*decl, context, rule);
+    return markedAsSuppress(decl, rule)
+        || markedParentsAsSuppress(clang::DynTypedNode::create(*decl), context, rule);
 }
 
 bool shouldSuppress(const clang::Stmt *stmt, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    return markedParentsAsSuppress(*stmt, context, rule);
+    return markedParentsAsSuppress(clang::DynTypedNode::create(*stmt), context, rule);
 }
 
 typedef std::set<std::pair<int, int>> RangeSet;
-- 
2.43.0


From 53d96f4d400ef4307157ad1888498d2370b55155 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 18/38] fix: remembered suppressions belong to one translation
 unit and one rule

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 36 +++++++++++-----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 74d8b07..95d6e7d 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -1,5 +1,6 @@
 #include "oclint/helper/SuppressHelper.h"
 
+#include <map>
 #include <regex>
 #include <set>
 #include <unordered_map>
@@ -9,7 +10,7 @@
 #include <clang/AST/RecursiveASTVisitor.h>
 #include <clang/Basic/SourceManager.h>
 
-#include "oclint/RuleCarrier.h"
+#include "oclint/RuleBase.h"
 
 #include "oclint/helper/AttributeHelper.h"
 
@@ -94,21 +95,22 @@ public:
     }
 };
 
-std::string getMainFilePath(clang::ASTContext &context)
-{
-    oclint::RuleCarrier ruleCarrier(&context, nullptr);
-    return ruleCarrier.getMainFilePath();
-}
-
-typedef std::unordered_map<std::string, std::set<int>> LineMap;
+typedef std::unordered_map<const clang::ASTContext *, std::set<int>> LineMap;
 static LineMap singleLineMapping;
 
+typedef std::unordered_map<const clang::ASTContext *, std::map<std::string, RangeSet>> RangeMap;
+static RangeMap rangeMapping;
 
+// what is remembered about a translation unit ends with it
+static void forgetContext(void *context)
+{
+    singleLineMapping.erase(static_cast<const clang::ASTContext *>(context));
+    rangeMapping.erase(static_cast<const clang::ASTContext *>(context));
+}
 
 bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentLinesIt = singleLineMapping.find(filePath);
+    auto commentLinesIt = singleLineMapping.find(&context);
     std::set<int> commentLines;
     if (commentLinesIt == singleLineMapping.end())
     {
@@ -143,7 +145,8 @@ bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
                 }
             }
         }
-        singleLineMapping[filePath] = commentLines;
+        singleLineMapping[&context] = commentLines;
+        context.AddDeallocation(forgetContext, &context);
     }
     else
     {
@@ -153,19 +156,16 @@ bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
     return commentLines.find(beginLine) != commentLines.end();
 }
 
-typedef std::unordered_map<std::string, RangeSet> RangeMap;
-static RangeMap rangeMapping;
-
 bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentRangesIt = rangeMapping.find(filePath);
+    std::map<std::string, RangeSet> &contextRanges = rangeMapping[&context];
+    auto commentRangesIt = contextRanges.find(rule->attributeName());
     RangeSet commentRanges;
-    if (commentRangesIt == rangeMapping.end())
+    if (commentRangesIt == contextRanges.end())
     {
         DeclAnnotationRangeCollector annotationCollector;
         commentRanges = annotationCollector.collect(context, rule);
-        rangeMapping[filePath] = commentRanges;
+        contextRanges[rule->attributeName()] = commentRanges;
     }
     else
     {
-- 
2.43.0


From 28203e6cdd9103fc96cf5e98279520df7d15408f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 19/38] fix: annotated declarations that begin with a macro
 hide the lines they cover

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 95d6e7d..38f7197 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -69,8 +69,7 @@ public:
             declEnd = decl->decls_end(); declIt != declEnd; ++declIt)
         {
             clang::SourceLocation startLocation = (*declIt)->getBeginLoc();
-            if (startLocation.isValid() &&
-                _sourceManager->getMainFileID() == _sourceManager->getFileID(startLocation))
+            if (startLocation.isValid() && _sourceManager->isInMainFile(startLocation))
             {
                 (void) /* explicitly ignore the return of this function */
                     clang::RecursiveASTVisitor<DeclAnnotationRangeCollector>::TraverseDecl(*declIt);
-- 
2.43.0


From 64cc95e4c4fa1fdcb1ee22fe774b407ef574dfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 20/38] fix: comments of the main file hide nothing in files it
 includes

---
 oclint-rules/lib/AbstractASTRuleBase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 00fa4f9..dcd819c 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -15,7 +15,9 @@ void AbstractASTRuleBase::addViolation(clang::SourceLocation startLocation,
     clang::SourceLocation startFileLoc = sourceManager->getFileLoc(startLocation);
     clang::SourceLocation endFileLoc = sourceManager->getFileLoc(endLocation);
     int beginLine = sourceManager->getPresumedLineNumber(startFileLoc);
-    if (!shouldSuppress(beginLine, *_carrier->getASTContext()))
+    /* the suppressing comments are those of the main file */
+    if (!sourceManager->isInMainFile(startFileLoc)
+        || !shouldSuppress(beginLine, *_carrier->getASTContext()))
     {
         llvm::StringRef filename = sourceManager->getFilename(startFileLoc);
         _carrier->addViolation(filename.str(),
-- 
2.43.0


From 7e8b76c73adba40a0058d1a034ef6443f8266f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 21/38] fix: an annotated lambda hides the lines it covers

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 38f7197..5f3c064 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -79,6 +79,12 @@ public:
         return _range;
     }
 
+    /* the function of a lambda, which can be annotated, counts as implicit */
+    bool shouldVisitImplicitCode() const
+    {
+        return true;
+    }
+
     bool VisitDecl(clang::Decl *decl)
     {
         if (markedAsSuppress(decl, _rule))
-- 
2.43.0


From 4e7385196ec44f3091a31375150df1d7e3311452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 22/38] fix: function measures are reported where the function
 is defined only

---
 oclint-rules/rules/size/CyclomaticComplexityRule.cpp | 10 ++++++++--
 oclint-rules/rules/size/LongMethodRule.cpp           |  5 ++++-
 oclint-rules/rules/size/NPathComplexityRule.cpp      |  5 ++++-
 oclint-rules/rules/size/NcssMethodCountRule.cpp      | 10 ++++++++--
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/oclint-rules/rules/size/CyclomaticComplexityRule.cpp b/oclint-rules/rules/size/CyclomaticComplexityRule.cpp
index 0b6fb9b..ae368d6 100644
--- a/oclint-rules/rules/size/CyclomaticComplexityRule.cpp
+++ b/oclint-rules/rules/size/CyclomaticComplexityRule.cpp
@@ -138,13 +138,19 @@ McCabe (December 1976). `"A Complexity Measure" <http://www.literateprogramming.
 
     bool VisitObjCMethodDecl(ObjCMethodDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->hasBody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/LongMethodRule.cpp b/oclint-rules/rules/size/LongMethodRule.cpp
index a645e00..6502056 100644
--- a/oclint-rules/rules/size/LongMethodRule.cpp
+++ b/oclint-rules/rules/size/LongMethodRule.cpp
@@ -87,7 +87,10 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/NPathComplexityRule.cpp b/oclint-rules/rules/size/NPathComplexityRule.cpp
index 8bf664a..4eda0a3 100644
--- a/oclint-rules/rules/size/NPathComplexityRule.cpp
+++ b/oclint-rules/rules/size/NPathComplexityRule.cpp
@@ -126,7 +126,10 @@ Brian A. Nejmeh  (1988). `"NPATH: a measure of execution path complexity and its
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/NcssMethodCountRule.cpp b/oclint-rules/rules/size/NcssMethodCountRule.cpp
index b84e450..be70364 100644
--- a/oclint-rules/rules/size/NcssMethodCountRule.cpp
+++ b/oclint-rules/rules/size/NcssMethodCountRule.cpp
@@ -92,13 +92,19 @@ public:
 
     bool VisitObjCMethodDecl(ObjCMethodDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->hasBody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
-- 
2.43.0


From 3f2cfb6a25be49bb4deda0318252ab1f83bff6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 23/38] fix: fields are counted where the class is defined only

---
 oclint-rules/rules/size/TooManyFieldsRule.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oclint-rules/rules/size/TooManyFieldsRule.cpp b/oclint-rules/rules/size/TooManyFieldsRule.cpp
index 5aa4707..aef7e9c 100644
--- a/oclint-rules/rules/size/TooManyFieldsRule.cpp
+++ b/oclint-rules/rules/size/TooManyFieldsRule.cpp
@@ -76,6 +76,10 @@ public:
 
     bool VisitObjCInterfaceDecl(ObjCInterfaceDecl *decl)
     {
+        if (!decl->isThisDeclarationADefinition())
+        {
+            return true;
+        }
         int fieldCount = decl->ivar_size();
         if (fieldCount > _threshold)
         {
@@ -88,6 +92,10 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
+        if (!decl->isThisDeclarationADefinition())
+        {
+            return true;
+        }
         int fieldCount = distance(decl->field_begin(), decl->field_end());
         if (fieldCount > _threshold)
         {
-- 
2.43.0


From fa4940bd2be3d6d47e7d936fb5d891928439d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 24/38] fix: too many methods counts the methods that are
 written

---
 oclint-rules/rules/size/TooManyMethodsRule.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/size/TooManyMethodsRule.cpp b/oclint-rules/rules/size/TooManyMethodsRule.cpp
index 2425b1e..bb4c19d 100644
--- a/oclint-rules/rules/size/TooManyMethodsRule.cpp
+++ b/oclint-rules/rules/size/TooManyMethodsRule.cpp
@@ -96,7 +96,15 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
-        int methodCount = distance(decl->method_begin(), decl->method_end());
+        /* the members the compiler adds do not count */
+        int methodCount = 0;
+        for (CXXMethodDecl *method : decl->methods())
+        {
+            if (!method->isImplicit())
+            {
+                methodCount++;
+            }
+        }
         if (methodCount > _threshold)
         {
             string description = "C++ class with " + toString<int>(methodCount) +
-- 
2.43.0


From d70b5c4efdb9f9bf594315b5215d76404c3c2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 25/38] fix: negative parameter limits are numbers below zero

---
 oclint-rules/rules/size/TooManyParametersRule.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/size/TooManyParametersRule.cpp b/oclint-rules/rules/size/TooManyParametersRule.cpp
index 9edc21b..accecff 100644
--- a/oclint-rules/rules/size/TooManyParametersRule.cpp
+++ b/oclint-rules/rules/size/TooManyParametersRule.cpp
@@ -10,12 +10,12 @@ using namespace oclint;
 class TooManyParametersRule : public AbstractASTVisitorRule<TooManyParametersRule>
 {
 private:
-    unsigned int _threshold;
+    int _threshold;
 
     template <typename T>
     void applyDecl(T *decl)
     {
-        unsigned numOfParams = decl->param_size();
+        int numOfParams = decl->param_size();
         if (decl->hasBody() && numOfParams > _threshold)
         {
             string description = "Method with " + toString<int>(numOfParams) +
-- 
2.43.0


From e51155e3843c8325fe3ea03ab10f71f559c9902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 26/38] fix: names are not cut for negative limits

---
 oclint-rules/rules/naming/LongVariableNameRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/naming/LongVariableNameRule.cpp b/oclint-rules/rules/naming/LongVariableNameRule.cpp
index 06a24d4..1f1dc0f 100644
--- a/oclint-rules/rules/naming/LongVariableNameRule.cpp
+++ b/oclint-rules/rules/naming/LongVariableNameRule.cpp
@@ -65,7 +65,7 @@ public:
         int threshold = RuleConfiguration::intForKey("LONG_VARIABLE_NAME", 20);
         if (nameLength > threshold)
         {
-            if (nameLength > threshold + 10)
+            if (threshold >= 0 && nameLength > threshold + 10)
             {
                 varName = varName.substr(0, threshold + 3) + "..." +
                     varName.substr(varName.length() - 3, varName.length());
-- 
2.43.0


From acadc232ec56b2aeaaa71e76b9bd19f15e84b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 27/38] fix: parameters are counted where the function is
 defined only

---
 oclint-rules/rules/size/TooManyParametersRule.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/size/TooManyParametersRule.cpp b/oclint-rules/rules/size/TooManyParametersRule.cpp
index accecff..5b2378e 100644
--- a/oclint-rules/rules/size/TooManyParametersRule.cpp
+++ b/oclint-rules/rules/size/TooManyParametersRule.cpp
@@ -101,7 +101,10 @@ Fowler, Martin (1999). *Refactoring: Improving the design of existing code.* Add
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
 
         return true;
     }
-- 
2.43.0


From 73d2b440bb109755150edd1ae69814b87bd04648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 28/38] fix: every variable of a loop header or handler is
 exempt from the short name rule

---
 .../rules/naming/ShortVariableNameRule.cpp    | 45 ++++++-------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/oclint-rules/rules/naming/ShortVariableNameRule.cpp b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
index cb85f4a..7670686 100644
--- a/oclint-rules/rules/naming/ShortVariableNameRule.cpp
+++ b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
@@ -1,4 +1,4 @@
-#include <stack>
+#include <set>
 
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleConfiguration.h"
@@ -12,21 +12,13 @@ using namespace oclint;
 class ShortVariableNameRule : public AbstractASTVisitorRule<ShortVariableNameRule>
 {
 private:
-    std::stack<VarDecl *> _suppressVarDecls;
-
-    void clearVarDeclsStack()
-    {
-        while (!_suppressVarDecls.empty())
-        {
-            _suppressVarDecls.pop();
-        }
-    }
+    std::set<VarDecl *> _suppressVarDecls;
 
     void handleVarDecl(VarDecl *varDecl)
     {
         if (varDecl)
         {
-            _suppressVarDecls.push(varDecl);
+            _suppressVarDecls.insert(varDecl);
         }
     }
 
@@ -37,17 +29,10 @@ private:
         {
             return;
         }
-        if (declStmt->isSingleDecl())
+        for (DeclStmt::decl_iterator it = declStmt->decl_begin(), itEnd = declStmt->decl_end();
+            it != itEnd; it++)
         {
-            handleVarDecl(dyn_cast_or_null<VarDecl>(declStmt->getSingleDecl()));
-        }
-        else
-        {
-            for (DeclStmt::reverse_decl_iterator it = declStmt->decl_rbegin(),
-                itEnd = declStmt->decl_rend(); it != itEnd; it++)
-            {
-                handleVarDecl(dyn_cast_or_null<VarDecl>(*it));
-            }
+            handleVarDecl(dyn_cast_or_null<VarDecl>(*it));
         }
     }
 
@@ -99,6 +84,11 @@ public:
     }
 #endif
 
+    virtual void setUp() override
+    {
+        _suppressVarDecls.clear();
+    }
+
     bool VisitVarDecl(VarDecl *varDecl)
     {
         std::string varName = varDecl->getNameAsString();
@@ -109,14 +99,9 @@ public:
             return true;
         }
 
-        if (!_suppressVarDecls.empty())
+        if (_suppressVarDecls.count(varDecl))
         {
-            VarDecl *topVarDecl = _suppressVarDecls.top();
-            _suppressVarDecls.pop();
-            if (varDecl == topVarDecl)
-            {
-                return true;
-            }
+            return true;
         }
 
         string description = "Length of variable name `" + varName +
@@ -129,7 +114,6 @@ public:
 
     bool VisitForStmt(ForStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleDeclStmt(forStmt->getInit());
 
         return true;
@@ -137,7 +121,6 @@ public:
 
     bool VisitCXXForRangeStmt(CXXForRangeStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleVarDecl(forStmt->getLoopVariable());
 
         return true;
@@ -146,7 +129,6 @@ public:
 
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleDeclStmt(forStmt->getElement());
 
         return true;
@@ -154,7 +136,6 @@ public:
 
     bool VisitCXXCatchStmt(CXXCatchStmt *catchStmt)
     {
-        clearVarDeclsStack();
         handleVarDecl(catchStmt->getExceptionDecl());
 
         return true;
-- 
2.43.0


From a7b63a25ebef9d283ede4944b58ca89472c416cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 29/38] fix: parameters referenced in templates or unevaluated
 operands are not unused

---
 oclint-rules/rules/unused/UnusedMethodParameterRule.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
index 866c0c1..bfb3990 100644
--- a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
+++ b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
@@ -175,6 +175,7 @@ public:
     bool VisitParmVarDecl(ParmVarDecl *varDecl)
     {
         if (!varDecl->isUsed() &&
+            !varDecl->isReferenced() &&
             !hasAttributeUnused(varDecl) &&
             hasVariableName(varDecl) &&
             isInNonTemplateFunction(varDecl) &&
-- 
2.43.0


From 1a21d75e43f6c486aee6244d8683e0ce0f200447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 30/38] fix: parameters that only name a part of a function
 type are not unused

---
 oclint-rules/rules/unused/UnusedMethodParameterRule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
index bfb3990..4f4175e 100644
--- a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
+++ b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
@@ -72,6 +72,10 @@ private:
     bool isExistingByContract(ParmVarDecl *decl)
     {
         DeclContext *lexicalContext = decl->getLexicalDeclContext();
+        if (lexicalContext && lexicalContext->isTranslationUnit())
+        {
+            return true; /* part of the type of a function, block or pointer */
+        }
         while (lexicalContext)
         {
             if (isExistingByContract(lexicalContext))
-- 
2.43.0


From 58874a1e26cbefd6f72e77b06e20aeefff07d43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 31/38] fix: class methods override class methods and instance
 methods override instance methods

---
 oclint-rules/lib/util/ASTUtil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index e538545..a4295d7 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -11,7 +11,8 @@ bool isObjCMethodDeclaredInSuperClass(clang::ObjCMethodDecl *decl)
         if (interfaceDecl)
         {
             clang::ObjCInterfaceDecl *superInterface = interfaceDecl->getSuperClass();
-            return superInterface && superInterface->lookupInstanceMethod(selector);
+            return superInterface &&
+                superInterface->lookupMethod(selector, decl->isInstanceMethod());
         }
     }
     return false;
@@ -32,7 +33,7 @@ bool isObjCMethodDeclaredInProtocol(clang::ObjCMethodDecl *decl)
             protocolEnd = interfaceDecl->protocol_end(); protocol != protocolEnd; protocol++)
         {
             clang::ObjCProtocolDecl *protocolDecl = (clang::ObjCProtocolDecl *)*protocol;
-            if (protocolDecl->lookupInstanceMethod(selector))
+            if (protocolDecl->lookupMethod(selector, decl->isInstanceMethod()))
             {
                 return true;
             }
-- 
2.43.0


From 90e6fd5c3b921d9edb699b617cf1fed67f37948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 32/38] fix: methods of protocols adopted in a class extension
 implement a protocol

---
 oclint-rules/lib/util/ASTUtil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index a4295d7..1faf684 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -29,8 +29,9 @@ bool isObjCMethodDeclaredInProtocol(clang::ObjCMethodDecl *decl)
     clang::ObjCInterfaceDecl *interfaceDecl = decl->getClassInterface();
     if (interfaceDecl)
     {
-        for (clang::ObjCProtocolList::iterator protocol = interfaceDecl->protocol_begin(),
-            protocolEnd = interfaceDecl->protocol_end(); protocol != protocolEnd; protocol++)
+        for (clang::ObjCProtocolList::iterator
+            protocol = interfaceDecl->all_referenced_protocol_begin(),
+            protocolEnd = interfaceDecl->all_referenced_protocol_end(); protocol != protocolEnd; protocol++)
         {
             clang::ObjCProtocolDecl *protocolDecl = (clang::ObjCProtocolDecl *)*protocol;
             if (protocolDecl->lookupMethod(selector, decl->isInstanceMethod()))
-- 
2.43.0


From dcb9c38fd495f55aad54acfa96cea5da788b6834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 33/38] fix: class design rules judge a class where it is
 defined, not at each forward declaration

---
 .../BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp       | 2 +-
 oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp b/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
index be32722..560bb49 100644
--- a/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
+++ b/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
@@ -109,7 +109,7 @@ Sutter & Alexandrescu (November 2004).
     bool VisitCXXRecordDecl(const CXXRecordDecl* cxxRecordDecl)
     {
         if (cxxRecordDecl != nullptr
-            && cxxRecordDecl->hasDefinition()
+            && cxxRecordDecl->isThisDeclarationADefinition()
             && cxxRecordDecl->isPolymorphic())
         {
             check(*cxxRecordDecl, cxxRecordDecl->bases_begin(), cxxRecordDecl->bases_end());
diff --git a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
index b1f0b92..46e15de 100644
--- a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
+++ b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
@@ -69,7 +69,7 @@ public:
     bool VisitCXXRecordDecl(const CXXRecordDecl* cxxRecordDecl)
     {
         if (cxxRecordDecl != nullptr
-            && cxxRecordDecl->hasDefinition()
+            && cxxRecordDecl->isThisDeclarationADefinition()
             && cxxRecordDecl->isPolymorphic()
             && !hasVirtualDestructor(*cxxRecordDecl))
         {
-- 
2.43.0


From 1b764284a254cdb5c7775fd96b1997149694e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 34/38] fix: a working directory with a long path is found

---
 oclint-driver/lib/Options.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 789647e..251dcc8 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -1,5 +1,6 @@
 #include "oclint/Options.h"
 
+#include <cstdlib>
 #include <unistd.h>
 
 #include <llvm/Option/OptTable.h>
@@ -180,10 +181,11 @@ static void processConfigFiles()
 
 static void preserveWorkingPath()
 {
-    char path[300];
-    if (getcwd(path, 300))
+    char *path = getcwd(nullptr, 0);
+    if (path)
     {
         absoluteWorkingPath = std::string(path);
+        free(path);
     }
 }
 
-- 
2.43.0


From 9a82c583817c782291dec1697b76e1b56c4926fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 35/38] fix: a call to a protected method that a protocol
 declares does not crash

---
 .../rules/cocoa/ObjCVerifyProtectedMethodRule.cpp         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index a042ecc..a350c8c 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -10,6 +10,12 @@ using namespace clang;
 using namespace oclint;
 
 namespace {
+    // The class that declares the method, or the receiver's class if a protocol declares it
+    const ObjCInterfaceDecl* protectingClass(ObjCMessageExpr* expr)
+    {
+        const auto methodClass = expr->getMethodDecl()->getClassInterface();
+        return methodClass ? methodClass : expr->getReceiverInterface();
+    }
 
     class CheckMethodsInsideClass : public RecursiveASTVisitor<CheckMethodsInsideClass>
     {
@@ -58,7 +64,7 @@ public:
             checker.TraverseDecl(decl);
             const auto violations = checker.getViolations();
             for(auto expr : violations) {
-                const auto sourceClass = expr->getMethodDecl()->getClassInterface();
+                const auto sourceClass = protectingClass(expr);
 
                 string description = "calling protected method " +
                     expr->getSelector().getAsString() +
-- 
2.43.0


From 7442db521a8217e788d5f4c0d49e8f6d7f7355a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 36/38] fix: a protected method can be called on any object
 inside its class and its subclasses

---
 oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index a350c8c..41392a0 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -39,7 +39,8 @@ namespace {
                 return true;
             }
 
-            if(!isObjCInterfaceClassOrSubclass(&_container, interface->getNameAsString())) {
+            const auto sourceClass = protectingClass(expr);
+            if(!isObjCInterfaceClassOrSubclass(&_container, sourceClass->getNameAsString())) {
                 _violations.push_back(expr);
             }
 
-- 
2.43.0


From 949f1e0dbcc2cacdb366dfd95cc6bfe8c3e956a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 37/38] fix: only the definition of a method has to call the
 base method, not its declaration

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index 73935cf..05fd5b8 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -129,7 +129,7 @@ public:
         string selectorName = decl->getSelector().getAsString();
 
         // Figure out if anything in the super chain is marked
-        if(declRequiresSuperCall(decl)) {
+        if(decl->isThisDeclarationADefinition() && declRequiresSuperCall(decl)) {
             // If so, start a separate checker to look for method sends just in the method body
             ContainsCallToSuperMethod checker(selectorName);
             checker.TraverseDecl(decl);
-- 
2.43.0


From 4a99f63602ff927aa2a0760e8e71bff99d0d5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 38/38] fix: a call to super in a class method counts as a call
 to the base method

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index 05fd5b8..2c67bdd 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -26,7 +26,8 @@ public:
     bool VisitObjCMessageExpr(ObjCMessageExpr* expr)
     {
         if(expr->getSelector().getAsString() == _selector
-        && expr->getReceiverKind() == ObjCMessageExpr::SuperInstance) {
+        && (expr->getReceiverKind() == ObjCMessageExpr::SuperInstance
+            || expr->getReceiverKind() == ObjCMessageExpr::SuperClass)) {
             _foundSuperCall = true;
         }
         return true;
-- 
2.43.0

