// R02: the JSON report.
#include "cppvc.h"
#include "oclint/Constants.h"
#include "oclint-reporters/reporters/JSONReporter.cpp"

namespace spec {
typedef std::vector<Violation> Vs;
inline std::string num(int n) { return std::to_string(n); }
// how JSON writes one character of a text
inline std::string jchar(char c) {
  if (c == '"') return "\\\"";
  if (c == '\\') return "\\\\";
  if (c == '\n') return "\\n";
  if (c == '\r') return "\\r";
  if (c == '\t') return "\\t";
  if (c >= 0 && c < 16) return std::string("\\u000") + "0123456789abcdef"[c];
  if (c >= 16 && c < 32) return std::string("\\u001") + "0123456789abcdef"[c - 16];
  return std::string(1, c);
}
LOGIC std::string jtext(const std::string& s, int n) {
  if (n <= 0) return "";
  return jtext(s, n - 1) + jchar(s[n - 1]);
}
inline std::string str(const std::string& s) { return "\"" + jtext(s, s.size()) + "\""; }
inline std::string member(const std::string& key, const std::string& value) { return "\"" + key + "\":" + value; }
LOGIC std::string item(const Violation& v) {
  std::string s = "{" + member("path", str(v.path)) + "," + member("startLine", num(v.startLine)) + "," + member("startColumn", num(v.startColumn)) + ",";
  if (v.endLine != 0 && v.endColumn != 0) s += member("endLine", num(v.endLine)) + "," + member("endColumn", num(v.endColumn)) + ",";
  if (v.rule != nullptr)
    s += member("rule", str(v.rule->name())) + "," + member("category", str(v.rule->category())) + "," + member("priority", num(v.rule->priority())) + ",";
  return s + member("message", str(v.message)) + "}";
}
// the items of a list, separated by commas
LOGIC std::string items(const Vs& vs, int n) {
  if (n <= 0) return "";
  if (n == 1) return item(vs[0]);
  return items(vs, n - 1) + "," + item(vs[n - 1]);
}
inline std::string prio(Results& r, int p) { return "{" + member("priority", num(p)) + "," + member("number", num(r.numberOfViolationsWithPriority(p))) + "}"; }
inline std::string summary(Results& r) {
  return member("summary", "{" + member("numberOfFiles", num(r.numberOfFiles())) + "," + member("numberOfFilesWithViolations", num(r.numberOfFilesWithViolations())) +
         "," + member("numberOfViolationsWithPriority", "[" + prio(r, 1) + "," + prio(r, 2) + "," + prio(r, 3) + "]") + "},");
}
inline std::string header(const std::string& version) {
  return member("version", str(version)) + "," + member("url", str(Constants::homepage())) + "," + member("timestamp", num(time(nullptr))) + ",";
}
}
using namespace spec;
CONTRACT("JSONReporter::jsonEscape")
std::string c_esc(JSONReporter& self, const std::string& s) { return jtext(s, s.size()); }
CONTRACT("JSONReporter::writeKeyValue")
void c_kvs(JSONReporter& self, std::ostream& out, std::string key, std::string value, bool last) { out << member(key, str(value)) << (last ? "" : ","); }
CONTRACT("JSONReporter::writeKeyValue")
void c_kvi(JSONReporter& self, std::ostream& out, std::string key, int value, bool last) { out << member(key, num(value)) << (last ? "" : ","); }
CONTRACT("JSONReporter::writeHeader")
void c_wh(JSONReporter& self, std::ostream& out, std::string version) { out << header(version); }
CONTRACT("JSONReporter::writeViolation")
void c_wv(JSONReporter& self, std::ostream& out, Violation& v) { out << item(v); }
CONTRACT("JSONReporter::writeSummary")
void c_ws(JSONReporter& self, std::ostream& out, Results& r) { out << summary(r); }
CONTRACT("JSONReporter::report")
void c_report(JSONReporter& self, Results* r, std::ostream& out) {
  Vs v = r->allViolations(), b = r->allCheckerBugs();
  out << "{" << header(Constants::version()) << summary(*r) << member("violation", "[" + items(v, v.size()) + "]") << ","
      << member("clangStaticAnalyzer", "[" + items(b, b.size()) + "]") << "}\n";
}
CONTRACT("JSONReporter::name")
std::string c_name(const JSONReporter& self) { return "json"; }
