// R04: the PMD report.
#include "cppvc.h"
#include "oclint/Constants.h"
#include "oclint-reporters/reporters/PMDReporter.cpp"

namespace spec {
typedef std::vector<Violation> Vs;
inline std::string num(int n) { return std::to_string(n); }
inline std::string xchar(char c) {
  if (c == '<') return "&lt;";
  if (c == '>') return "&gt;";
  if (c == '"') return "&quot;";
  if (c == '&') return "&amp;";
  if (c == '\'') return "&apos;";
  return std::string(1, c);
}
LOGIC std::string xtext(const std::string& s, int n) {
  if (n <= 0) return "";
  return xtext(s, n - 1) + xchar(s[n - 1]);
}
inline std::string esc(const std::string& s) { return xtext(s, s.size()); }
inline std::string attr(const std::string& key, const std::string& value) { return key + "=\"" + esc(value) + "\" "; }
inline std::string nattr(const std::string& key, int value) { return key + "=\"" + num(value) + "\" "; }
inline std::string what(int priority, const std::string& rule, const std::string& category) {
  return nattr("priority", priority) + attr("rule", rule) + attr("ruleset", category);
}
inline std::string file(const Violation& v, const std::string& description) {
  return "<file name=\"" + esc(v.path) + "\">\n<violation " + nattr("begincolumn", v.startColumn) + nattr("endcolumn", v.endColumn) +
         nattr("beginline", v.startLine) + nattr("endline", v.endLine) + description + ">\n" + esc(v.message) + "\n</violation>\n</file>\n";
}
// kind 0: compiler error, 1: compiler warning, 2: violation of a rule, 3: clang static analyzer
LOGIC std::string item(const Violation& v, int kind) {
  if (kind == 0) return file(v, what(1, "compiler error", "clang"));
  if (kind == 1) return file(v, what(2, "compiler warning", "clang"));
  if (kind == 3) return file(v, what(2, "clang static analyzer", "clang"));
  if (v.rule == nullptr) return file(v, "");
  // priorities 1, 2, 3 of oclint are 1, 3, 5 of PMD
  return file(v, what(2 * v.rule->priority() - 1, v.rule->name(), v.rule->category()));
}
LOGIC std::string items(const Vs& vs, int kind, int n) {
  if (n <= 0) return "";
  return items(vs, kind, n - 1) + item(vs[n - 1], kind) + "\n";
}
}
using namespace spec;
CONTRACT("PMDReporter::xmlEscape")
std::string c_esc(const std::string& s) { return xtext(s, s.size()); }
CONTRACT("PMDReporter::writeCompilerError")
void c_we(PMDReporter& self, std::ostream& out, const Violation& v) { out << item(v, 0); }
CONTRACT("PMDReporter::writeCompilerWarning")
void c_ww(PMDReporter& self, std::ostream& out, const Violation& v) { out << item(v, 1); }
CONTRACT("PMDReporter::writeViolation")
void c_wv(PMDReporter& self, std::ostream& out, const Violation& v) { out << item(v, 2); }
CONTRACT("PMDReporter::writeCheckerBug")
void c_wb(PMDReporter& self, std::ostream& out, const Violation& v) { out << item(v, 3); }
CONTRACT("PMDReporter::report")
void c_report(PMDReporter& self, Results* r, std::ostream& out) {
  Vs e = r->allErrors(), w = r->allWarnings(), v = r->allViolations(), b = r->allCheckerBugs();
  out << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<pmd version=\"oclint-" << Constants::version() << "\">" << items(e, 0, e.size()) << items(w, 1, w.size())
      << items(v, 2, v.size()) << items(b, 3, b.size()) << "</pmd>";
}
CONTRACT("PMDReporter::name")
std::string c_name(const PMDReporter& self) { return "pmd"; }
