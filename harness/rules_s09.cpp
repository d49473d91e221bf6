#include "rules.h"
#include "specs/s09.h"
using namespace ::rules;
namespace spec {
// the annotation of a declaration itself: "oclint:enforce[name]", a comment in brackets may follow
static bool annotated(const Decl* d, const std::string& want, std::string* note) {
  if (!d) return false;
  for (auto* a : d->specific_attrs<AnnotateAttr>()) {
    std::string t = a->getAnnotation().str();
    if (t.compare(0, want.size(), want)) continue;
    if (want.back() != ']') { if (t == want) return true; continue; }
    size_t b = t.find('[', want.size());
    if (b != std::string::npos && t.back() == ']') *note = t.substr(b + 1, t.size() - b - 2);
    return true;
  }
  return false;
}
// of a method: its own, of the property it belongs to, of the protocol's method, of a redeclaration in a category
static bool lookup(const Decl* d, const std::string& want, std::string* note) {
  if (annotated(d, want, note)) return true;
  auto* m = dyn_cast_or_null<ObjCMethodDecl>(d);
  if (!m) return false;
  if (m->isPropertyAccessor() && annotated(m->findPropertyDecl(), want, note)) return true;
  if (auto* p = dyn_cast<ObjCProtocolDecl>(m->getDeclContext())) return annotated(p->lookupMethod(m->getSelector(), m->isInstanceMethod()), want, note);
  if (isa<ObjCCategoryDecl>(m->getDeclContext()) || !m->getClassInterface()) return false;
  for (auto* c : m->getClassInterface()->visible_categories())
    if (auto* o = c->getMethod(m->getSelector(), m->isInstanceMethod()))
      if (annotated(o, want, note) || (o->isPropertyAccessor() && annotated(o->findPropertyDecl(), want, note))) return true;
  return false;
}
bool enforced(const Decl* d, const oclint::RuleBase* r) { std::string n; return lookup(d, "oclint:enforce[" + r->attributeName() + "]", &n); }
std::string comment(const Decl* d, const oclint::RuleBase* r) { std::string n; lookup(d, "oclint:enforce[" + r->attributeName() + "]", &n); return n; }
std::vector<const ObjCMethodDecl*> overriddenBy(const ObjCMethodDecl* m) { SmallVector<const ObjCMethodDecl*, 4> v; m->getOverriddenMethods(v); return {v.begin(), v.end()}; }
bool superCallUnder(Decl* d, const std::string& s) { for (auto* e : under<ObjCMessageExpr>(d)) if (callsSuper(e, s)) return true; return false; }
std::vector<ObjCMessageExpr*> outsideUnder(Decl* d, const ObjCInterfaceDecl* c, const oclint::RuleBase* r) {
  std::vector<ObjCMessageExpr*> v;
  for (auto* e : under<ObjCMessageExpr>(d)) if (outside(e, c, r)) v.push_back(e);
  return v;
}
std::vector<ObjCIvarRefExpr*> ivarsUnder(Stmt* s) { return under<ObjCIvarRefExpr>(s); }
std::vector<ObjCIvarRefExpr*> assignedUnder(Decl* d) {
  std::vector<ObjCIvarRefExpr*> v;
  for (auto* b : under<BinaryOperator>(d)) if (b->isAssignmentOp()) for (auto* i : ivarsUnder(b->getLHS())) v.push_back(i);
  return v;
}
}
static void fill() {
  auto& t = table();
  t["missing hash method"] = {OBJC, nullptr, {onDecl<ObjCImplementationDecl>(spec::missingHash)}};
  t["missing call to base method"] = {OBJC, nullptr, {onDecl<ObjCMethodDecl>(spec::callSuper)}};
  t["calling prohibited method"].handlers = {onStmt<CallExpr>(spec::prohibitedFunction), onStmt<ObjCMessageExpr>(spec::prohibitedMethod)};
  t["calling protected method"] = {OBJC, nullptr, {onDecl<ObjCImplementationDecl>(spec::protectedMethods)}};
  t["missing abstract method implementation"] = {OBJC, nullptr, {onDecl<ObjCImplementationDecl>(spec::abstractMethods)}};
  t["use boxed expression"] = {OBJC, nullptr, {onStmt<ObjCMessageExpr>(spec::boxed)}};
  t["use container literal"] = {OBJC, nullptr, {onStmt<ObjCMessageExpr>(spec::containerLiteral)}};
  t["use number literal"] = {OBJC, nullptr, {onStmt<ObjCMessageExpr>(spec::numberLiteral)}};
  t["use object subscripting"] = {OBJC, nullptr, {onStmt<ObjCMessageExpr>(spec::subscripting)}};
  t["ivar assignment outside accessors or init"].handlers = {onDecl<ObjCMethodDecl>(spec::assignIvar)};
}
static void c(h::Rng& r) { if (r.chance(6)) only() = ALL; else only() = OBJC; compare(random(r, "S09")); }
int main(int argc, char** argv) { fill(); return h::run(argc, argv, {{"S09", c}}); }
