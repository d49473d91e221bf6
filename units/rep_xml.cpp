// R03: the XML report.
#include "cppvc.h"
#include "oclint/Constants.h"
#include "oclint-reporters/reporters/XMLReporter.cpp"

namespace spec {
typedef std::vector<Violation> Vs;
inline std::string num(int n) { return std::to_string(n); }
// how an XML attribute writes one character of a text
inline std::string xchar(char c) {
  if (c == '<') return "&lt;";
  if (c == '>') return "&gt;";
  if (c == '"') return "&quot;";
  if (c == '&') return "&amp;";
  if (c == '\n') return "&#10;";
  if (c == '\r') return "&#13;";
  if (c == '\t') return "&#9;";
  return std::string(1, c);
}
LOGIC std::string xtext(const std::string& s, int n) {
  if (n <= 0) return "";
  return xtext(s, n - 1) + xchar(s[n - 1]);
}
inline std::string attr(const std::string& key, const std::string& value) { return " " + key + "=\"" + xtext(value, value.size()) + "\""; }
inline std::string nattr(const std::string& key, int value) { return " " + key + "=\"" + num(value) + "\""; }
LOGIC std::string item(const Violation& v) {
  std::string s = "<violation" + attr("path", v.path) + nattr("startline", v.startLine) + nattr("startcolumn", v.startColumn);
  if (v.endLine != 0 && v.endColumn != 0) s += nattr("endline", v.endLine) + nattr("endcolumn", v.endColumn);
  if (v.rule != nullptr) s += attr("rule", v.rule->name()) + attr("category", v.rule->category()) + nattr("priority", v.rule->priority());
  return s + attr("message", v.message) + "></violation>";
}
LOGIC std::string items(const Vs& vs, int n) {
  if (n <= 0) return "";
  return items(vs, n - 1) + item(vs[n - 1]);
}
inline std::string prop(const std::string& key, int value) { return "<property name=\"" + key + "\">" + num(value) + "</property>"; }
inline std::string summary(Results& r) {
  return "<summary>" + prop("number of files", r.numberOfFiles()) + prop("files with violations", r.numberOfFilesWithViolations()) +
         prop("number of priority 1 violations", r.numberOfViolationsWithPriority(1)) + prop("number of priority 2 violations", r.numberOfViolationsWithPriority(2)) +
         prop("number of priority 3 violations", r.numberOfViolationsWithPriority(3)) + "</summary>";
}
inline std::string head(const std::string& version) {
  return "<?xml version=\"1.0\" encoding=\"UTF-8\" ?><oclint version=\"" + version + "\" url=\"" + Constants::homepage() + "\">";
}
// UTC, years counted from 1900 and months from 0 in struct tm
inline std::string datetime() {
  time_t now = time(nullptr);
  struct tm* t = gmtime(&now);
  char text[28];
  snprintf(text, 28, "%04i-%02i-%02iT%02i:%02i:%02iZ", t->tm_year + 1900, t->tm_mon + 1, t->tm_mday, t->tm_hour, t->tm_min, t->tm_sec);
  return "<datetime>" + std::string(text) + "</datetime>";
}
}
using namespace spec;
CONTRACT("XMLReporter::xmlEscape")
std::string c_esc(XMLReporter& self, const std::string& s) { return xtext(s, s.size()); }
CONTRACT("XMLReporter::writeViolationAttribute")
void c_wa(XMLReporter& self, std::ostream& out, std::string key, std::string value) { out << attr(key, value); }
CONTRACT("XMLReporter::writeHeader")
void c_wh(XMLReporter& self, std::ostream& out, std::string version) { out << head(version); }
CONTRACT("XMLReporter::writeDatetime")
void c_wd(XMLReporter& self, std::ostream& out) { out << datetime(); }
CONTRACT("XMLReporter::writeViolation")
void c_wv(XMLReporter& self, std::ostream& out, const Violation& v) { out << item(v); }
CONTRACT("XMLReporter::writeSummary")
void c_ws(XMLReporter& self, std::ostream& out, Results& r) { out << summary(r); }
CONTRACT("XMLReporter::report")
void c_report(XMLReporter& self, Results* r, std::ostream& out) {
  Vs v = r->allViolations(), b = r->allCheckerBugs();
  out << head(Constants::version()) << datetime() << summary(*r) << "<violations>" << items(v, v.size()) << "</violations><clangstaticanalyzer>"
      << items(b, b.size()) << "</clangstaticanalyzer></oclint>\n";
}
CONTRACT("XMLReporter::name")
std::string c_name(const XMLReporter& self) { return "xml"; }
