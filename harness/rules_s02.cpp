#include "rules.h"
#include "specs/s02.h"
using namespace rules;
static void fill() {
  auto& t = table();
  t["empty if statement"].handlers = {onStmt<IfStmt>(spec::emptyIf)};
  t["empty else block"].handlers = {onStmt<IfStmt>(spec::emptyElse)};
  t["empty while statement"].handlers = {onStmt<WhileStmt>(spec::emptyWhile)};
  t["empty do/while statement"].handlers = {onStmt<DoStmt>(spec::emptyDo)};
  t["empty for statement"].handlers = {onStmt<ForStmt>(spec::emptyFor), onStmt<ObjCForCollectionStmt>(spec::emptyForIn)};
  t["empty switch statement"].handlers = {onStmt<SwitchStmt>(spec::emptySwitch)};
  t["empty try statement"].handlers = {onStmt<CXXTryStmt>(spec::emptyTry), onStmt<ObjCAtTryStmt>(spec::emptyObjCTry)};
  t["empty catch statement"].handlers = {onStmt<CXXCatchStmt>(spec::emptyCatch), onStmt<ObjCAtCatchStmt>(spec::emptyObjCCatch)};
  t["empty finally statement"].handlers = {onStmt<ObjCAtFinallyStmt>(spec::emptyFinally)};
}
int main(int argc, char** argv) { fill(); return h::run(argc, argv, {{"S02", [](h::Rng& r) { compare(random(r, "S02")); }}}); }
