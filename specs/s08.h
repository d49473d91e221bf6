// S08: class design
#include "common.h"
#include <clang/AST/DeclCXX.h>
namespace spec {
inline bool virtualDestructor(const CXXRecordDecl* c) { return c->getDestructor() && c->getDestructor()->isVirtual(); }
// a class with virtual functions, where it is defined
inline bool judged(const CXXRecordDecl* c) { return c->isThisDeclarationADefinition() && c->isPolymorphic(); }
inline void virtualClass(oclint::RuleBase* r, const CXXRecordDecl* c) {
  if (judged(c) && !virtualDestructor(c)) report(r, c, "class " + c->getNameAsString() + " should have a virtual destructor ~" + c->getNameAsString() + "()");
}
inline bool safe(const CXXRecordDecl* b) { return virtualDestructor(b) || (b->getDestructor() && b->getDestructor()->getAccess() == AS_protected); }
// the public bases of a class, through bases without virtual functions also theirs
LOGIC inline std::vector<Report> unsafeBases(oclint::RuleBase* r, const CXXRecordDecl* child, const CXXRecordDecl* c, int n) {
  if (n <= 0) return {};
  std::vector<Report> v = unsafeBases(r, child, c, n - 1);
  const CXXBaseSpecifier* s = c->bases_begin() + (n - 1);
  if (s->getAccessSpecifier() != AS_public) return v;
  const CXXRecordDecl* base = s->getType()->getAsCXXRecordDecl();
  if (base == nullptr || !base->hasDefinition()) return v;
  if (!safe(base)) v.push_back(found(r, base, "~" + base->getNameAsString() + "() should be protected or virtual according to class " + child->getNameAsString()));
  if (base->isPolymorphic()) return v;
  std::vector<Report> w = unsafeBases(r, child, base, (int)(base->bases_end() - base->bases_begin()));
  v.insert(v.end(), w.begin(), w.end());
  return v;
}
inline void baseDestructor(oclint::RuleBase* r, const CXXRecordDecl* c) {
  if (judged(c)) report(unsafeBases(r, c, c, (int)(c->bases_end() - c->bases_begin())));
}
LOGIC inline bool anyDefault(const CXXMethodDecl* m, int i) {
  if (i < 0 || i >= (int)m->getNumParams()) return false;
  return m->getParamDecl(i)->hasDefaultArg() || anyDefault(m, i + 1);
}
inline void defaultArguments(oclint::RuleBase* r, const CXXMethodDecl* m) { if (m->isVirtual() && anyDefault(m, 0)) report(r, m); }
inline void privateStaticField(oclint::RuleBase* r, const VarDecl* v) { if (v->getAccess() == AS_private && v->isStaticDataMember()) report(r, v); }
inline void privateStaticMethod(oclint::RuleBase* r, const CXXMethodDecl* m) { if (m->getAccess() == AS_private && m->isStatic()) report(r, m); }
}
