// S07: unused variables and parameters
#include "common.h"
#include <list>
#include <set>
#include <clang/AST/Attr.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclObjC.h>
namespace spec {
// a function template's own variables are not judged
inline bool inTemplate(Decl* d) {
  FunctionDecl* f = dyn_cast_or_null<FunctionDecl>(d->getLexicalDeclContext());
  return f && f->getTemplatedKind() != FunctionDecl::TK_NonTemplate;
}
// the name of a type without template arguments, struct, class and const
inline std::string plain(std::string n) {
  size_t t = n.find('<');
  if (t != std::string::npos) n = n.substr(0, t);
  size_t s = n.rfind(' ');
  return s == std::string::npos ? n : n.substr(s + 1);
}
inline bool separates(char c) { return c == ',' || c == ';' || c == ' ' || c == '\t' || c == '\0'; }
// a list of names: after its first n characters, where the last name begins and the names that have ended
LOGIC inline int nameStart(const std::string& s, int n) {
  if (n <= 0) return 0;
  return separates(s[n - 1]) ? n : nameStart(s, n - 1);
}
LOGIC inline std::set<std::string> names(std::set<std::string> before, const std::string& s, int n) {
  if (n <= 0) return before;
  std::set<std::string> r = names(before, s, n - 1);
  if (separates(s[n - 1]) && nameStart(s, n - 1) != n - 1) r.insert(s.substr(nameStart(s, n - 1), n - 1 - nameStart(s, n - 1)));
  return r;
}
inline std::set<std::string> namesIn(std::set<std::string> before, const std::string& s) { return names(before, s, (int)s.length() + 1); }
// a later list adds to an earlier one; an empty list has no name
LOGIC inline std::set<std::string> namesInAll(const std::list<std::string>& l, int n) {
  if (n <= 0) return {};
  return namesIn(namesInAll(l, n - 1), *std::next(l.begin(), n - 1));
}
inline std::set<std::string> configured() {
  return namesIn(namesIn({}, oclint::RuleConfiguration::stringForKey("RAII_DEFAULT_CLASSES", "std::lock_guard, std::unique_lock")), oclint::RuleConfiguration::stringForKey("RAII_CUSTOM_CLASSES", ""));
}
inline void unusedLocal(oclint::RuleBase* r, VarDecl* v, const std::set<std::string>& held) {
  if (v->isUsed() || v->isReferenced() || !v->isLocalVarDecl() || v->getNameAsString() == "" || v->isStaticDataMember() || inTemplate(v)) return;
  if (held.count(plain(v->getType().getCanonicalType().getAsString()))) return;
  report(r, v, "The local variable '" + v->getNameAsString() + "' is unused.");
}
// is there a protocol, from the i-th on, that has the method?
LOGIC inline bool inProtocol(ObjCInterfaceDecl* c, ObjCMethodDecl* m, int i) {
  if (i < 0 || i >= (int)std::distance(c->all_referenced_protocol_begin(), c->all_referenced_protocol_end())) return false;
  if ((*(c->all_referenced_protocol_begin() + i))->lookupMethod(m->getSelector(), m->isInstanceMethod())) return true;
  return inProtocol(c, m, i + 1);
}
inline bool declaredOnly(ObjCMethodDecl* m) { DeclContext* c = m->getDeclContext(); return c && (isa<ObjCInterfaceDecl>(c) || isa<ObjCProtocolDecl>(c) || isa<ObjCCategoryDecl>(c)); }
inline bool overrides(ObjCMethodDecl* m) {
  ObjCInterfaceDecl* c = m->getClassInterface();
  if (!c) return false;
  ObjCInterfaceDecl* s = c->getSuperClass();
  return (s && s->lookupMethod(m->getSelector(), m->isInstanceMethod())) || inProtocol(c, m, 0);
}
// the signature is given by something else, or the function has no body here
inline bool given(DeclContext* c) {
  if (c->isClosure() || isa<CXXRecordDecl>(c)) return true;
  FunctionDecl* f = dyn_cast<FunctionDecl>(c);
  CXXMethodDecl* v = dyn_cast<CXXMethodDecl>(c);
  ObjCMethodDecl* m = dyn_cast<ObjCMethodDecl>(c);
  return (f && (!f->doesThisDeclarationHaveABody() || !f->hasBody())) || (v && v->isVirtual()) || (m && (declaredOnly(m) || overrides(m)));
}
LOGIC inline bool withinGiven(DeclContext* c) {
  if (c == nullptr) return false;
  return given(c) || withinGiven(c->getLexicalParent());
}
LOGIC inline bool withinAction(DeclContext* c) {
  if (c == nullptr) return false;
  ObjCMethodDecl* m = dyn_cast<ObjCMethodDecl>(c);
  return (m && m->hasAttr<IBActionAttr>()) || withinAction(c->getLexicalParent());
}
inline void unusedParameter(oclint::RuleBase* r, ParmVarDecl* v) {
  if (v->isUsed() || v->isReferenced() || v->hasAttr<UnusedAttr>() || v->getNameAsString() == "" || inTemplate(v)) return;
  DeclContext* c = v->getLexicalDeclContext();
  if ((c && c->isTranslationUnit()) || withinGiven(c) || withinAction(c)) return;
  report(r, v, "The parameter '" + v->getNameAsString() + "' is unused.");
}
}
