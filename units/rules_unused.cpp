// S07: unused variables and parameters.
// cppvc: user /usr/lib/llvm-20/include/clang/AST/#WalkUpFrom,Visit,getDerived,should
#include "rules.h"
#include "specs/s07.h"
#include "oclint-rules/lib/util/ASTUtil.cpp"
#define rules rules1
#include "oclint-rules/rules/unused/UnusedLocalVariableRule.cpp"
#undef rules
#define rules rules2
#include "oclint-rules/rules/unused/UnusedMethodParameterRule.cpp"
#undef rules
// the types that hold resources are those configured when the rule is made
CONTRACT("UnusedLocalVariableRule::splitClasses") void c_split(UnusedLocalVariableRule& self, const std::string& input) { self.skippedTypes = spec::namesIn(self.skippedTypes, input); }
bool unusedLocal(UnusedLocalVariableRule& rule, VarDecl* s) { return rule.WalkUpFromVarDecl(s); }
CONTRACT("unusedLocal") bool c_unusedLocal(UnusedLocalVariableRule& rule, VarDecl* s) { REQUIRES(s != nullptr); spec::unusedLocal(&rule, s, rule.skippedTypes); return true; }
ONLY(UnusedLocalVariableRule, VarDecl)
CONTRACT("isObjCMethodDeclLocatedInInterfaceContainer") bool c_located(ObjCMethodDecl* m) { return m && spec::declaredOnly(m); }
CONTRACT("isObjCMethodDeclaredInSuperClass") bool c_super(ObjCMethodDecl* m) {
  if (!m || spec::declaredOnly(m)) return false;
  ObjCInterfaceDecl* c = m->getClassInterface();
  return c && c->getSuperClass() && c->getSuperClass()->lookupMethod(m->getSelector(), m->isInstanceMethod());
}
CONTRACT("isObjCMethodDeclaredInProtocol") bool c_protocol(ObjCMethodDecl* m) { return m && !spec::declaredOnly(m) && m->getClassInterface() && spec::inProtocol(m->getClassInterface(), m, 0); }
bool unusedParameter(UnusedMethodParameterRule& rule, ParmVarDecl* s) { return rule.WalkUpFromParmVarDecl(s); }
CONTRACT("unusedParameter") bool c_unusedParameter(UnusedMethodParameterRule& rule, ParmVarDecl* s) { REQUIRES(s != nullptr); spec::unusedParameter(&rule, s); return true; }
ONLY(UnusedMethodParameterRule, ParmVarDecl)
CONTRACT("UnusedLocalVariableRule::resetSkippedTypes") void c_reset(UnusedLocalVariableRule& self, const std::list<std::string>& l) { self.skippedTypes = spec::namesInAll(l, (int)l.size()); }
CONTRACT("UnusedLocalVariableRule::UnusedLocalVariableRule") void c_made(UnusedLocalVariableRule& self) { self.skippedTypes = spec::configured(); }
