// R05: the HTML report.
#include "cppvc.h"
#include "oclint/Constants.h"
#include "oclint-reporters/reporters/HTMLReporter.cpp"

namespace spec {
typedef std::vector<Violation> Vs;
inline std::string num(int n) { return std::to_string(n); }
inline std::string hchar(char c) {
  if (c == '<') return "&lt;";
  if (c == '>') return "&gt;";
  if (c == '"') return "&quot;";
  if (c == '&') return "&amp;";
  return std::string(1, c);
}
LOGIC std::string htext(const std::string& s, int n) {
  if (n <= 0) return "";
  return htext(s, n - 1) + hchar(s[n - 1]);
}
inline std::string esc(const std::string& s) { return htext(s, s.size()); }
inline std::string td(const std::string& s) { return "<td>" + s + "</td>"; }
inline std::string tdc(const std::string& cls, const std::string& s) { return "<td class='" + cls + "'>" + s + "</td>"; }
inline std::string row(const Violation& v, const std::string& cells) {
  return "<tr>" + td(esc(v.path)) + td(num(v.startLine) + ":" + num(v.startColumn)) + cells + td(esc(v.message)) + "</tr>";
}
LOGIC std::string item(const Violation& v) {
  return row(v, td(esc(v.rule->name())) + td(esc(v.rule->category())) + tdc("priority" + num(v.rule->priority()), num(v.rule->priority())));
}
LOGIC std::string diagnostic(const Violation& v, const std::string& level) {
  return row(v, td("compiler " + level) + td("") + tdc("cmplr-" + level, level));
}
LOGIC std::string bug(const Violation& v) { return row(v, td("clang static analyzer") + td("") + tdc("checker-bug", "checker bug")); }
LOGIC std::string items(const Vs& vs, int n) {
  if (n <= 0) return "";
  return items(vs, n - 1) + item(vs[n - 1]);
}
LOGIC std::string diagnostics(const Vs& vs, const std::string& level, int n) {
  if (n <= 0) return "";
  return diagnostics(vs, level, n - 1) + diagnostic(vs[n - 1], level);
}
LOGIC std::string bugs(const Vs& vs, int n) {
  if (n <= 0) return "";
  return bugs(vs, n - 1) + bug(vs[n - 1]);
}
inline std::string summary(Results& r) {
  return std::string("<table><thead><tr><th>Total Files</th><th>Files with Violations</th><th>Priority 1</th><th>Priority 2</th><th>Priority 3</th>") +
         "<th>Compiler Errors</th><th>Compiler Warnings</th><th>Clang Static Analyzer</th></tr></thead><tbody><tr>" + td(num(r.numberOfFiles())) +
         td(num(r.numberOfFilesWithViolations())) + tdc("priority1", num(r.numberOfViolationsWithPriority(1))) +
         tdc("priority2", num(r.numberOfViolationsWithPriority(2))) + tdc("priority3", num(r.numberOfViolationsWithPriority(3))) +
         tdc("cmplr-error", num(r.allErrors().size())) + tdc("cmplr-warning", num(r.allWarnings().size())) +
         tdc("checker-bug", num(r.allCheckerBugs().size())) + "</tr></tbody></table>";
}
inline std::string columns() {
  return std::string("<table id=\"violations-table\"><thead><tr><th onclick=\"sortTable(0)\" class=\"sortable\">File</th>") +
         "<th onclick=\"sortTable(1)\" class=\"sortable\">Location</th><th onclick=\"sortTable(2)\" class=\"sortable\">Rule Name</th>" +
         "<th onclick=\"sortTable(3)\" class=\"sortable\">Rule Category</th><th onclick=\"sortTable(4)\" class=\"sortable\">Priority</th>" +
         "<th onclick=\"sortTable(5)\" class=\"sortable\">Message</th></tr></thead><tbody>";
}
inline std::string footer(const std::string& version) {
  time_t now = time(nullptr);
  return std::string("<p>") + ctime(&now) + "| Generated with <a href='" + Constants::homepage() + "'>OCLint v" + version + "</a>.</p>";
}
}
using namespace spec;
CONTRACT("HTMLReporter::htmlEscape")
std::string c_esc(HTMLReporter& self, const std::string& s) { return htext(s, s.size()); }
CONTRACT("HTMLReporter::writeViolation")
void c_wv(HTMLReporter& self, std::ostream& out, const Violation& v) { out << item(v); }
CONTRACT("HTMLReporter::writeCompilerErrorOrWarning")
void c_wd(HTMLReporter& self, std::ostream& out, const Violation& v, std::string level) { out << diagnostic(v, level); }
CONTRACT("HTMLReporter::writeCompilerDiagnostics")
void c_wds(HTMLReporter& self, std::ostream& out, std::vector<Violation> vs, std::string level) { out << diagnostics(vs, level, vs.size()); }
CONTRACT("HTMLReporter::writeCheckerBugs")
void c_wb(HTMLReporter& self, std::ostream& out, std::vector<Violation> vs) { out << bugs(vs, vs.size()); }
CONTRACT("HTMLReporter::writeSummaryTable")
void c_ws(HTMLReporter& self, std::ostream& out, Results& r) { out << summary(r); }
CONTRACT("HTMLReporter::writeFooter")
void c_wf(HTMLReporter& self, std::ostream& out, std::string version) { out << footer(version); }
CONTRACT("HTMLReporter::report")
void c_report(HTMLReporter& self, Results* r, std::ostream& out) {
  out << "<!DOCTYPE html><html>";
  self.writeHead(out);  // fixed text
  Vs v = r->allViolations();
  out << "<body><h1>OCLint Report</h1><h2>Summary</h2>" << summary(*r) << "<h2>Details</h2>" << columns() << items(v, v.size());
  if (r->hasErrors()) { Vs e = r->allErrors(); out << diagnostics(e, "error", e.size()); }
  if (r->hasWarnings()) { Vs w = r->allWarnings(); out << diagnostics(w, "warning", w.size()); }
  if (r->hasCheckerBugs()) { Vs b = r->allCheckerBugs(); out << bugs(b, b.size()); }
  out << "</tbody></table><hr />" << footer(Constants::version()) << "</body></html>\n";
}
CONTRACT("HTMLReporter::name")
std::string c_name(const HTMLReporter& self) { return "html"; }
