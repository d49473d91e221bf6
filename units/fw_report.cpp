// F04, F02, F05: where a report is placed and what becomes of it.
#include "cppvc.h"
#include <clang/AST/AST.h>
#include <clang/Basic/SourceManager.h>
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
#include "oclint-core/lib/Violation.cpp"
#include "oclint-core/lib/ViolationSet.cpp"
#include "oclint-core/lib/RuleCarrier.cpp"
#include "oclint-rules/lib/AbstractASTRuleBase.cpp"
#include "oclint-rules/lib/AbstractSourceCodeReaderRule.cpp"
#include "oclint-rules/rules/size/LongLineRule.cpp"
using namespace oclint;
namespace spec {
// which annotations and comments hide a report is decided by shouldSuppress (units/fw_suppress.cpp)
bool hiddenDecl(const clang::Decl* d, const clang::ASTContext& c, const RuleBase* rule);
bool hiddenStmt(const clang::Stmt* s, const clang::ASTContext& c, const RuleBase* rule);
bool hiddenLine(int line, const clang::ASTContext& c, const RuleBase* rule);
inline int lineOf(clang::SourceManager& m, clang::SourceLocation l) { return m.getPresumedLineNumber(l); }
// a report goes into the violation set of the current file, unless it has no file
inline void record(RuleCarrier* c, const std::string& file, int a, int b, int x, int y, RuleBase* rule, const std::string& m) {
  if (file == "") return;
  c->_violationSet->_violations.push_back(Violation(rule, file, a, b, x, y, m));
}
// where text produced by a macro is expanded in a file, other text where it stands
inline void place(AbstractASTRuleBase& self, clang::SourceLocation from, clang::SourceLocation to, RuleBase* rule, const std::string& m) {
  clang::SourceManager& sm = self._carrier->_astContext->getSourceManager();
  clang::SourceLocation a = sm.getFileLoc(from), z = sm.getFileLoc(to);
  int line = sm.getPresumedLineNumber(a);
  if (sm.isInMainFile(a) && hiddenLine(line, *self._carrier->_astContext, nullptr)) return;
  record(self._carrier, sm.getFilename(a).str(), line, sm.getPresumedColumnNumber(a), sm.getPresumedLineNumber(z), sm.getPresumedColumnNumber(z), rule, m);
}
}
using namespace spec;
ASSUME("shouldSuppress") bool a_hiddenDecl(const clang::Decl* d, clang::ASTContext& c, RuleBase* rule) { return hiddenDecl(d, c, rule); }
ASSUME("shouldSuppress") bool a_hiddenStmt(const clang::Stmt* s, clang::ASTContext& c, RuleBase* rule) { return hiddenStmt(s, c, rule); }
ASSUME("shouldSuppress") bool a_hiddenLine(int line, clang::ASTContext& c, RuleBase* rule) { return hiddenLine(line, c, rule); }
CONTRACT("oclint::RuleCarrier::addViolation")
void c_carrier(RuleCarrier& self, std::string f, int a, int b, int c, int d, RuleBase* r, const std::string& m) { record(&self, f, a, b, c, d, r, m); }
CONTRACT("oclint::RuleCarrier::getMainFilePath")
std::string c_mainFile(RuleCarrier& self) {
  clang::SourceManager& sm = self._astContext->getSourceManager();
  return sm.getFilename(sm.getLocForStartOfFile(sm.getMainFileID())).str();
}
CONTRACT("oclint::AbstractASTRuleBase::addViolation")
void c_range(AbstractASTRuleBase& self, clang::SourceLocation a, clang::SourceLocation z, RuleBase* rule, const std::string& m) { place(self, a, z, rule, m); }
CONTRACT("oclint::AbstractASTRuleBase::addViolation")
void c_decl(AbstractASTRuleBase& self, const clang::Decl* d, RuleBase* rule, const std::string& m) {
  if (d != nullptr && !hiddenDecl(d, *self._carrier->_astContext, rule)) place(self, d->getBeginLoc(), d->getEndLoc(), rule, m);
}
CONTRACT("oclint::AbstractASTRuleBase::addViolation")
void c_stmt(AbstractASTRuleBase& self, const clang::Stmt* s, RuleBase* rule, const std::string& m) {
  if (s != nullptr && !hiddenStmt(s, *self._carrier->_astContext, rule)) place(self, s->getBeginLoc(), s->getEndLoc(), rule, m);
}
CONTRACT("oclint::AbstractSourceCodeReaderRule::addViolation")
void c_line(AbstractSourceCodeReaderRule& self, int a, int b, int x, int y, RuleBase* rule, const std::string& m) {
  clang::SourceManager& sm = self._carrier->_astContext->getSourceManager();
  if (!hiddenLine(a, *self._carrier->_astContext, rule)) record(self._carrier, sm.getFilename(sm.getLocForStartOfFile(sm.getMainFileID())).str(), a, b, x, y, rule, m);
}
CONTRACT("oclint::AbstractASTRuleBase::isLanguageSupported")
bool c_language(const AbstractASTRuleBase& self) {
  const clang::LangOptions& o = self._carrier->_astContext->getLangOpts();
  unsigned l = self.supportedLanguages();
  if (o.ObjC) return (l & LANG_OBJC) != 0;
  if (o.CPlusPlus) return (l & LANG_CXX) != 0;
  if (o.C99) return (l & LANG_C) != 0;
  return false;
}
namespace spec {
struct Line { int number; std::string text; };
std::vector<Line> given;
// the lines of a text, which ends or goes on at each line feed
LOGIC std::vector<Line> linesOf(std::string text, int number) {
  if (text.size() == 0) return {};
  std::vector<Line> v;
  Line line;
  line.number = number;
  size_t i = text.find('\n');
  line.text = i == std::string::npos ? text : text.substr(0, i);
  v.push_back(line);
  return cppvc::concat(v, linesOf(i == std::string::npos ? "" : text.substr(i + 1), number + 1));
}
}
ASSUME("oclint::AbstractSourceCodeReaderRule::eachLine")
void a_line(AbstractSourceCodeReaderRule& self, int number, std::string text) { Line l; l.number = number; l.text = text; given.push_back(l); }
CONTRACT("oclint::AbstractSourceCodeReaderRule::apply")
void c_apply(AbstractSourceCodeReaderRule& self) {
  clang::SourceManager& sm = self._carrier->_astContext->getSourceManager();
  given = cppvc::concat(given, linesOf(sm.getBufferData(sm.getMainFileID()).str(), 1));
}
CONTRACT("LongLineRule::eachLine")
void c_long(LongLineRule& self, int number, std::string line) {
  int limit = RuleConfiguration::intForKey("LONG_LINE", 100);
  int length = line.size();
  if (length <= limit) return;
  clang::SourceManager& sm = self._carrier->_astContext->getSourceManager();
  if (!hiddenLine(number, *self._carrier->_astContext, &self))
    record(self._carrier, sm.getFilename(sm.getLocForStartOfFile(sm.getMainFileID())).str(), number, 1, number, length, &self,
           "Line with " + std::to_string(length) + " characters exceeds limit of " + std::to_string(limit));
}
