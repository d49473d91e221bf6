// F01: what a rule gets to see.
#include "cppvc.h"
#include <iterator>
#include <clang/AST/AST.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include "oclint-core/lib/RuleCarrier.cpp"
#include "oclint-rules/lib/AbstractASTRuleBase.cpp"
#include "oclint/AbstractASTVisitorRule.h"
using namespace oclint;
// the template is the same for every rule: a rule without anything of its own
class AnyRule : public AbstractASTVisitorRule<AnyRule> {
public:
  virtual const std::string name() const override;
  virtual int priority() const override;
  virtual const std::string category() const override;
};
class Particular : public AnyRule {};   // so that nothing virtual is known about an AnyRule
namespace spec {
enum { SETUP, LOOK, TEARDOWN };
struct Event { int kind; clang::Decl* decl; };
inline Event event(int kind, clang::Decl* d) { Event e; e.kind = kind; e.decl = d; return e; }
std::vector<Event> events;
// written in the analysed file itself
inline bool inMainFile(clang::SourceManager& sm, clang::Decl* d) { return d->getBeginLoc().isValid() && sm.isInMainFile(d->getBeginLoc()); }
inline bool wanted(AnyRule& r, clang::SourceManager& sm, clang::Decl* d, bool cuda) {
  if (!inMainFile(sm, d)) return false;
  if (!cuda || !clang::isa<clang::FunctionDecl>(d)) return true;
  unsigned kind = clang::cast<clang::FunctionDecl>(d)->hasAttr<clang::CUDAGlobalAttr>() ? CUDA_GLOBAL : CUDA_HOST;
  return (r.supportedCUDAFunctionAttrs() & kind) != 0;
}
LOGIC std::vector<Event> looks(AnyRule& r, clang::SourceManager& sm, clang::DeclContext* unit, bool cuda, int n) {
  if (n <= 0) return {};
  std::vector<Event> v = looks(r, sm, unit, cuda, n - 1);
  clang::Decl* d = *std::next(unit->decls_begin(), n - 1);
  if (wanted(r, sm, d, cuda)) v.push_back(event(LOOK, d));
  return v;
}
inline bool speaks(const AbstractASTRuleBase& r) {
  const clang::LangOptions& o = r._carrier->_astContext->getLangOpts();
  unsigned l = r.supportedLanguages();
  if (o.ObjC) return (l & LANG_OBJC) != 0;
  if (o.CPlusPlus) return (l & LANG_CXX) != 0;
  return o.C99 && (l & LANG_C) != 0;
}
}
using namespace spec;
ASSUME("clang::RecursiveASTVisitor::TraverseDecl") bool a_look(AnyRule& self, clang::Decl* d) { events.push_back(event(LOOK, d)); return false; }
CONTRACT("oclint::AbstractASTRuleBase::isLanguageSupported") bool a_language(const AbstractASTRuleBase& self) { return speaks(self); }
ASSUME("oclint::AbstractASTVisitorRule::setUp") void a_setup(AnyRule& self) { events.push_back(event(SETUP, nullptr)); }
ASSUME("oclint::AbstractASTVisitorRule::tearDown") void a_teardown(AnyRule& self) { events.push_back(event(TEARDOWN, nullptr)); }
CONTRACT("oclint::AbstractASTVisitorRule<class AnyRule>::apply")
void c_apply(AnyRule& self) {
  bool cuda = self._carrier->_astContext->getLangOpts().CUDA;
  if (!cuda && (!speaks(self) || !(self.supportedCUDAFunctionAttrs() & CUDA_HOST))) return;
  clang::DeclContext* unit = self._carrier->_astContext->getTranslationUnitDecl();
  events.push_back(event(SETUP, nullptr));
  events = cppvc::concat(events, looks(self, self._carrier->_astContext->getSourceManager(), unit, cuda, std::distance(unit->decls_begin(), unit->decls_end())));
  events.push_back(event(TEARDOWN, nullptr));
}
void use(Particular& p) { AnyRule& r = p; r.apply(); }
