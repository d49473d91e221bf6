// S09: Objective-C rules
#include "common.h"
#include <clang/AST/DeclObjC.h>
#include <clang/AST/ExprObjC.h>
namespace spec {
// whether a declaration is annotated to be enforced for a rule, and the comment of the annotation (decided in F03)
bool enforced(const Decl* d, const oclint::RuleBase* r);
std::string comment(const Decl* d, const oclint::RuleBase* r);
// what clang finds
std::vector<const ObjCMethodDecl*> overriddenBy(const ObjCMethodDecl* m);
bool superCallUnder(Decl* d, const std::string& selector);
std::vector<ObjCMessageExpr*> outsideUnder(Decl* d, const ObjCInterfaceDecl* c, const oclint::RuleBase* r);
std::vector<ObjCIvarRefExpr*> ivarsUnder(Stmt* s);
std::vector<ObjCIvarRefExpr*> assignedUnder(Decl* d);

LOGIC inline bool implements(bool before, const ObjCImplementationDecl* c, const std::string& name, int n) {
  if (n <= 0) return before;
  return implements(before, c, name, n - 1) || (*std::next(c->instmeth_begin(), n - 1))->getNameAsString() == name;
}
inline bool implements(const ObjCImplementationDecl* c, const std::string& name) { return implements(false, c, name, (int)std::distance(c->instmeth_begin(), c->instmeth_end())); }
inline void missingHash(oclint::RuleBase* r, const ObjCImplementationDecl* c) {
  if (implements(c, "isEqual:") && !implements(c, "hash")) report(r, c, "If you override isEqual you must override hash too.");
}

LOGIC inline bool anyEnforced(const oclint::RuleBase* r, const std::vector<const ObjCMethodDecl*>& v, int i) {
  if (i < 0 || i >= (int)v.size()) return false;
  return enforced(v[i], r) || anyEnforced(r, v, i + 1);
}
inline bool mustCallSuper(const oclint::RuleBase* r, const ObjCMethodDecl* m) { return m->isOverriding() && anyEnforced(r, overriddenBy(m), 0); }
inline bool callsSuper(const ObjCMessageExpr* e, const std::string& selector) {
  return (e->getReceiverKind() == ObjCMessageExpr::SuperInstance || e->getReceiverKind() == ObjCMessageExpr::SuperClass) && e->getSelector().getAsString() == selector;
}
inline void callSuper(oclint::RuleBase* r, ObjCMethodDecl* m) {
  std::string name = m->getSelector().getAsString();
  if (m->isThisDeclarationADefinition() && mustCallSuper(r, m) && !superCallUnder(m, name)) report(r, m, "overridden method " + name + " must call super");
}

inline std::string instead(const Decl* d, const oclint::RuleBase* r) { return comment(d, r) == "" ? std::string() : " instead use " + comment(d, r); }
inline void prohibitedFunction(oclint::RuleBase* r, const CallExpr* e) {
  const FunctionDecl* f = e->getDirectCallee();
  if (enforced(f, r)) report(r, e, "calling prohibited function " + f->getNameAsString() + instead(f, r));
}
inline void prohibitedMethod(oclint::RuleBase* r, const ObjCMessageExpr* e) {
  const ObjCMethodDecl* m = e->getMethodDecl();
  if (enforced(m, r)) report(r, e, "calling prohibited method " + e->getSelector().getAsString() + instead(m, r));
}

// the class that protects a method: the one that declares it, the receiver's if a protocol declares it
inline const ObjCInterfaceDecl* protector(ObjCMessageExpr* e) { const ObjCInterfaceDecl* c = e->getMethodDecl()->getClassInterface(); return c ? c : e->getReceiverInterface(); }
LOGIC inline bool within(const ObjCInterfaceDecl* c, const std::string& name) { return c != nullptr && (c->getNameAsString() == name || within(c->getSuperClass(), name)); }
inline bool outside(ObjCMessageExpr* e, const ObjCInterfaceDecl* c, const oclint::RuleBase* r) {
  return enforced(e->getMethodDecl(), r) && e->getReceiverInterface() && !within(c, protector(e)->getNameAsString());
}
LOGIC inline std::vector<Report> outsiders(oclint::RuleBase* r, const std::vector<ObjCMessageExpr*>& l, int n) {
  if (n <= 0) return {};
  std::vector<Report> v = outsiders(r, l, n - 1);
  if (l[n - 1] == nullptr) return v;
  v.push_back(found(r, l[n - 1], "calling protected method " + l[n - 1]->getSelector().getAsString() + " from outside " + protector(l[n - 1])->getNameAsString() + " and its subclasses"));
  return v;
}
inline void protectedMethods(oclint::RuleBase* r, ObjCImplementationDecl* c) {
  if (!c->getClassInterface()) return;
  std::vector<ObjCMessageExpr*> l = outsideUnder(c, c->getClassInterface(), r);
  report(outsiders(r, l, (int)l.size()));
}

LOGIC inline std::vector<Report> unimplemented(oclint::RuleBase* r, const ObjCImplementationDecl* c, const ObjCInterfaceDecl* parent, int n) {
  if (n <= 0) return {};
  std::vector<Report> v = unimplemented(r, c, parent, n - 1);
  const ObjCMethodDecl* m = *std::next(parent->meth_begin(), n - 1);
  if (enforced(m, r) && !c->getMethod(m->getSelector(), m->isInstanceMethod()))
    v.push_back(found(r, c, "subclasses of " + parent->getNameAsString() + " must implement " + m->getSelector().getAsString()));
  return v;
}
inline void abstractMethods(oclint::RuleBase* r, ObjCImplementationDecl* c) {
  const ObjCInterfaceDecl* parent = c->getClassInterface()->getSuperClass();
  if (parent) report(unimplemented(r, c, parent, (int)std::distance(parent->meth_begin(), parent->meth_end())));
}

inline std::string integerOf(const std::string& selector) {
  if (selector == "numberWithInt:") return "int";
  if (selector == "numberWithUnsignedInt:") return "unsigned int";
  if (selector == "numberWithLong:") return "long";
  if (selector == "numberWithUnsignedLong:") return "unsigned long";
  if (selector == "numberWithLongLong:") return "long long";
  if (selector == "numberWithUnsignedLongLong:") return "unsigned long long";
  return "";
}
inline std::string floatingOf(const std::string& selector) { return selector == "numberWithFloat:" ? "float" : selector == "numberWithDouble:" ? "double" : ""; }
inline bool is(Expr* e, const std::string& type) { return type != "" && e->getType().getAsString() == type; }
inline bool boxedNumber(Expr* e, const std::string& selector) {
  if (!e) return false;
  if (isa<ParenExpr>(e) && (is(e, integerOf(selector)) || is(e, floatingOf(selector)) || (selector == "numberWithChar:" && is(e, "char")))) return true;
  if (selector == "numberWithBool:" && isa<ImplicitCastExpr>(e) && is(e, "BOOL")) { Expr* s = cast<ImplicitCastExpr>(e)->getSubExpr(); return s && isa<ParenExpr>(s); }
  if (selector == "numberWithInt:" && isa<DeclRefExpr>(e) && is(e, "int")) { Decl* d = cast<DeclRefExpr>(e)->getDecl(); return d && isa<EnumConstantDecl>(d); }
  return false;
}
inline bool boxedText(Expr* e, const std::string& selector) {
  if (!e || selector != "stringWithUTF8String:" || !isa<ImplicitCastExpr>(e) || !is(e, "const char *")) return false;
  Expr* s = cast<ImplicitCastExpr>(e)->getSubExpr();
  return s && is(s, "char *") && (isa<CallExpr>(s) || isa<ParenExpr>(s));
}
inline void boxed(oclint::RuleBase* r, ObjCMessageExpr* e) {
  ObjCInterfaceDecl* c = e->getReceiverInterface();
  if (!c || e->getNumArgs() != 1) return;
  std::string s = e->getSelector().getAsString();
  if ((c->getNameAsString() == "NSNumber" && boxedNumber(e->getArg(0), s)) || (c->getNameAsString() == "NSString" && boxedText(e->getArg(0), s))) report(r, e);
}
inline bool literalNumber(Expr* e, const std::string& selector) {
  if (!e) return false;
  if (selector == "numberWithChar:" && isa<ImplicitCastExpr>(e)) { Expr* s = cast<ImplicitCastExpr>(e)->getSubExpr(); return s && isa<CharacterLiteral>(s); }
  if (isa<IntegerLiteral>(e)) return is(e, integerOf(selector));
  if (isa<FloatingLiteral>(e)) return is(e, floatingOf(selector));
  if (selector != "numberWithBool:") return false;
  if (isa<ObjCBoolLiteralExpr>(e)) return true;
  CStyleCastExpr* k = isa<ParenExpr>(e) ? dyn_cast<CStyleCastExpr>(cast<ParenExpr>(e)->getSubExpr()) : nullptr;
  return k && isa<IntegerLiteral>(k->getSubExpr()) && is(k, "BOOL");
}
inline void numberLiteral(oclint::RuleBase* r, ObjCMessageExpr* e) {
  ObjCInterfaceDecl* c = e->getReceiverInterface();
  if (c && c->getNameAsString() == "NSNumber" && e->getNumArgs() == 1 && literalNumber(e->getArg(0), e->getSelector().getAsString())) report(r, e);
}
inline bool makesArray(const std::string& s) { return s == "array" || s == "arrayWithObject:" || s == "arrayWithObjects:count:" || s == "arrayWithObjects:"; }
inline bool makesDictionary(const std::string& s) {
  return s == "dictionary" || s == "dictionaryWithObject:forKey:" || s == "dictionaryWithObjects:forKeys:count:" || s == "dictionaryWithObjectsAndKeys:" || s == "dictionaryWithObjects:forKeys:";
}
inline void containerLiteral(oclint::RuleBase* r, ObjCMessageExpr* e) {
  ObjCInterfaceDecl* c = e->getReceiverInterface();
  std::string s = e->getSelector().getAsString();
  if (c && ((c->getNameAsString() == "NSArray" && makesArray(s)) || (c->getNameAsString() == "NSDictionary" && makesDictionary(s)))) report(r, e);
}
inline bool subscripts(const std::string& type, const std::string& s) {
  if (type == "NSArray *") return s == "objectAtIndex:" || s == "objectAtIndexedSubscript:";
  if (type == "NSMutableArray *") return s == "replaceObjectAtIndex:withObject:" || s == "setObject:atIndexedSubscript:";
  if (type == "NSDictionary *") return s == "objectForKey:" || s == "objectForKeyedSubscript:";
  if (type == "NSMutableDictionary *") return s == "setObject:forKey:" || s == "setObject:forKeyedSubscript:";
  return false;
}
inline void subscripting(oclint::RuleBase* r, ObjCMessageExpr* e) {
  Expr* o = e->getInstanceReceiver();
  if (o && isa<ImplicitCastExpr>(o) && subscripts(o->getType().getAsString(), e->getSelector().getAsString())) report(r, e);
}

// a name without its underscores, and with the first letter in upper case
LOGIC inline std::string bare(const std::string& s, int n) {
  if (n <= 0) return "";
  if (s[n - 1] == '_') return bare(s, n - 1);
  return bare(s, n - 1) + s[n - 1];
}
inline std::string bare(const std::string& s) { return bare(s, (int)s.size()); }
inline std::string capital(const std::string& s) { return s == "" ? s : std::string(1, (char)toupper(s[0])) + s.substr(1); }
inline bool accessor(const std::string& selector, const std::string& ivar) {
  return selector == bare(ivar) || selector == "set" + capital(bare(ivar)) + ":" || selector.substr(0, 4) == "init";
}
LOGIC inline std::vector<Report> assignments(oclint::RuleBase* r, const std::string& selector, const std::vector<ObjCIvarRefExpr*>& l, int n) {
  if (n <= 0) return {};
  std::vector<Report> v = assignments(r, selector, l, n - 1);
  if (l[n - 1] != nullptr && !accessor(selector, l[n - 1]->getDecl()->getNameAsString())) v.push_back(found(r, l[n - 1]));
  return v;
}
inline void assignIvar(oclint::RuleBase* r, ObjCMethodDecl* m) {
  std::vector<ObjCIvarRefExpr*> l = assignedUnder(m);
  report(assignments(r, m->getSelector().getAsString(), l, (int)l.size()));
}
}
