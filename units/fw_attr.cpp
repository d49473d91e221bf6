// F03: annotations on declarations.
#include "cppvc.h"
#include <clang/AST/AST.h>
#include <clang/AST/Attr.h>
#include "oclint/RuleBase.h"
#include "oclint-rules/lib/helper/AttributeHelper.cpp"
using namespace clang;
using oclint::RuleBase;
namespace spec {
inline bool startsWith(const std::string& text, const std::string& start) { return text.size() >= start.size() && text.substr(0, start.size()) == start; }
// a text without a rule has to be the annotation itself, one with a rule (in brackets) its start
inline bool matches(const std::string& text, const std::string& wanted) {
  return wanted.find('[') == std::string::npos ? text == wanted : startsWith(text, wanted);
}
// a comment in brackets ends the annotation
inline std::string remark(const std::string& text, const std::string& wanted, const std::string& before) {
  if (wanted.find('[') == std::string::npos || !startsWith(text, wanted)) return before;
  size_t i = text.find('[', wanted.size());
  return i != std::string::npos && text[text.size() - 1] == ']' ? text.substr(i + 1, text.size() - i - 2) : before;
}
LOGIC bool annotated(const Decl* d, std::string wanted, int i) {
  if (i < 0 || i >= (int)std::distance(d->specific_attr_begin<AnnotateAttr>(), d->specific_attr_end<AnnotateAttr>())) return false;
  const AnnotateAttr* a = *std::next(d->specific_attr_begin<AnnotateAttr>(), i);
  return a && matches(a->getAnnotation().str(), wanted) || annotated(d, wanted, i + 1);
}
// the comment of the first one that matches
LOGIC std::string note(const Decl* d, std::string wanted, std::string before, int i) {
  if (i < 0 || i >= (int)std::distance(d->specific_attr_begin<AnnotateAttr>(), d->specific_attr_end<AnnotateAttr>())) return before;
  const AnnotateAttr* a = *std::next(d->specific_attr_begin<AnnotateAttr>(), i);
  if (a && matches(a->getAnnotation().str(), wanted)) return remark(a->getAnnotation().str(), wanted, before);
  return note(d, wanted, before, i + 1);
}
}
using namespace spec;
CONTRACT("attributeHasAnnotation")
bool c_text(const std::string& annotation, const std::string& name, std::string* comment) {
  if (comment != nullptr) *comment = remark(annotation, name, *comment);
  return matches(annotation, name);
}
CONTRACT("declHasAttribute")
bool c_decl(const Decl* d, const std::string& wanted, std::string* comment) {
  if (d && comment) *comment = note(d, wanted, *comment, 0);
  return d && annotated(d, wanted, 0);
}
CONTRACT("declHasOCLintAttribute")
bool c_tool(const Decl* d, const std::string& kind, std::string* comment) {
  std::string wanted = "oclint:" + kind;
  if (d && comment) *comment = note(d, wanted, *comment, 0);
  return d && annotated(d, wanted, 0);
}
namespace spec {
inline std::string action(const std::string& kind, const RuleBase& rule) { return "oclint:" + kind + "[" + rule.attributeName() + "]"; }
inline bool marked(const Decl* d, std::string wanted) { return d && annotated(d, wanted, 0); }
// a method is annotated where it, its property or a declaration of it in a category or protocol is
LOGIC bool categories(const ObjCMethodDecl* m, std::string wanted, int i);
inline bool markedMethod(const ObjCMethodDecl* m, std::string wanted) {
  if (marked(m, wanted)) return true;
  if (m->isPropertyAccessor() && marked(m->findPropertyDecl(), wanted)) return true;
  const ObjCProtocolDecl* p = dyn_cast<ObjCProtocolDecl>(m->getDeclContext());
  if (p) return marked(p->lookupMethod(m->getSelector(), m->isInstanceMethod()), wanted);
  return !dyn_cast<ObjCCategoryDecl>(m->getDeclContext()) && m->getClassInterface() && categories(m, wanted, 0);
}
inline bool markedAny(const Decl* d, std::string wanted) {
  const ObjCMethodDecl* m = dyn_cast_or_null<ObjCMethodDecl>(d);
  return m ? markedMethod(m, wanted) : marked(d, wanted);
}
LOGIC bool categories(const ObjCMethodDecl* m, std::string wanted, int i) {
  const ObjCInterfaceDecl* c = m->getClassInterface();
  if (i < 0 || i >= (int)std::distance(c->visible_categories_begin(), c->visible_categories_end())) return false;
  ObjCCategoryDecl* k = *std::next(c->visible_categories_begin(), i);
  const ObjCMethodDecl* o = k->getMethod(m->getSelector(), m->isInstanceMethod());
  return markedAny(o, wanted) || categories(m, wanted, i + 1);
}
}
CONTRACT("declHasActionAttribute")
bool c_action(const Decl* d, const std::string& kind, const RuleBase& rule, std::string* comment) {
  REQUIRES(comment == nullptr);
  return markedAny(d, action(kind, rule));
}
