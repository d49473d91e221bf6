#include "rules.h"
#include "specs/s01.h"
#include "oclint/metric/CyclomaticComplexityMetric.h"
#include "oclint/metric/NPathComplexityMetric.h"
#include "oclint/metric/NcssMetric.h"
#include "oclint/metric/StmtDepthMetric.h"
using namespace rules;
namespace spec {
int cyclomaticOf(Decl* d) { return getCyclomaticComplexity(d); }
int npathOf(Stmt* s) { return getNPathComplexity(s); }
int ncssOf(Decl* d) { return getNcssCount(d); }
int depthOf(Stmt* s) { return getStmtDepth(s); }
}
static std::set<VarDecl*> exempt;
static SourceManager& sources(Decl* d) { return d->getASTContext().getSourceManager(); }
template <class K> static Handler longer(const std::string& what) { return onDecl<K>([what](oclint::RuleBase* r, K* d) { spec::longClass(r, d, sources(d), spec::classLimit(), what); }); }
template <class K> static Handler limited(void (*f)(oclint::RuleBase*, K*, int), int (*limit)()) { return onDecl<K>([f, limit](oclint::RuleBase* r, K* d) { f(r, d, limit()); }); }
static void fill() {
  auto& t = table();
  t["high cyclomatic complexity"].handlers = {onDecl<FunctionDecl>(spec::ccnFunction), onDecl<ObjCMethodDecl>(spec::ccnMethod)};
  t["high npath complexity"].handlers = {onDecl<FunctionDecl>(spec::npathFunction), onDecl<ObjCMethodDecl>(spec::npathMethod)};
  t["high ncss method"].handlers = {onDecl<FunctionDecl>(spec::ncssFunction), onDecl<ObjCMethodDecl>(spec::ncssMethod)};
  t["deep nested block"].handlers = {onStmt<CompoundStmt>(spec::depth)};
  t["long method"].handlers = {onDecl<FunctionDecl>([](oclint::RuleBase* r, FunctionDecl* d) { spec::longFunction(r, d, sources(d)); }), onDecl<ObjCMethodDecl>([](oclint::RuleBase* r, ObjCMethodDecl* d) { spec::longMethod(r, d, sources(d)); })};
  t["long class"].handlers = {longer<CXXRecordDecl>("C++ class"), longer<ObjCInterfaceDecl>("Objective-C interface"), longer<ObjCCategoryDecl>("Objective-C category"), longer<ObjCProtocolDecl>("Objective-C protocol"), longer<ObjCImplDecl>("Objective-C implementation")};
  t["too many fields"].handlers = {limited<CXXRecordDecl>(spec::fieldsCXX, spec::fieldsLimit), limited<ObjCInterfaceDecl>(spec::fieldsObjC, spec::fieldsLimit)};
  t["too many methods"].handlers = {limited<CXXRecordDecl>(spec::methodsCXX, spec::methodsLimit), limited<ObjCImplDecl>(spec::methodsObjC, spec::methodsLimit)};
  t["too many parameters"].handlers = {limited<FunctionDecl>(spec::parametersFunction, spec::parametersLimit), limited<ObjCMethodDecl>(spec::parametersMethod, spec::parametersLimit)};
  t["long variable name"].handlers = {onDecl<VarDecl>(spec::longName)};
  t["short variable name"] = {ALL, [](oclint::RuleBase*) { exempt.clear(); }, {
    onStmt<ForStmt>([](oclint::RuleBase*, ForStmt* s) { exempt = spec::with(exempt, s->getInit()); }),
    onStmt<CXXForRangeStmt>([](oclint::RuleBase*, CXXForRangeStmt* s) { exempt = spec::with(exempt, s->getLoopVariable()); }),
    onStmt<ObjCForCollectionStmt>([](oclint::RuleBase*, ObjCForCollectionStmt* s) { exempt = spec::with(exempt, s->getElement()); }),
    onStmt<CXXCatchStmt>([](oclint::RuleBase*, CXXCatchStmt* s) { exempt = spec::with(exempt, s->getExceptionDecl()); }),
    onDecl<VarDecl>([](oclint::RuleBase* r, VarDecl* v) { spec::shortName(r, v, exempt); })}};
}
static void c(h::Rng& r) {
  oclint::RuleConfiguration::removeAll();
  std::string set;
  static const struct { const char* key; int low, high; } keys[] = {{"CYCLOMATIC_COMPLEXITY", -1, 14}, {"NPATH_COMPLEXITY", -1, 250}, {"NCSS_METHOD", -1, 40}, {"NESTED_BLOCK_DEPTH", -1, 6}, {"LONG_METHOD", -1, 60}, {"LONG_CLASS", -1, 20},
    {"TOO_MANY_FIELDS", -2, 5}, {"TOO_MANY_METHODS", -2, 6}, {"TOO_MANY_PARAMETERS", -2, 10}, {"LONG_VARIABLE_NAME", -2, 25}, {"SHORT_VARIABLE_NAME", -1, 6}};
  for (auto& k : keys) if (r.chance(55)) { std::string v = h::str(r.chance(60) ? r.range(k.low, std::min(k.high, k.low + 8)) : r.range(k.low, k.high)); oclint::RuleConfiguration::addConfiguration(k.key, v); set += (set.empty() ? " with " : ", ") + std::string(k.key) + "=" + v; }
  compare(random(r, "S01"), set);
}
int main(int argc, char** argv) { fill(); return h::run(argc, argv, {{"S01", c}}); }
