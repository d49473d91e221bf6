// S02: empty bodies.
// cppvc: user /usr/lib/llvm-20/include/clang/AST/#WalkUpFrom,Visit,getDerived,should
#include "rules.h"
#include "specs/s02.h"
#include "oclint-rules/rules/abstract/AbstractEmptyBlockStmtRule.h"
#define rules rules1
#include "oclint-rules/rules/empty/EmptyIfStatementRule.cpp"
#undef rules
#define rules rules2
#include "oclint-rules/rules/empty/EmptyElseBlockRule.cpp"
#undef rules
#define rules rules3
#include "oclint-rules/rules/empty/EmptyWhileStatementRule.cpp"
#undef rules
#define rules rules4
#include "oclint-rules/rules/empty/EmptyDoWhileStatementRule.cpp"
#undef rules
#define rules rules5
#include "oclint-rules/rules/empty/EmptyForStatementRule.cpp"
#undef rules
#define rules rules6
#include "oclint-rules/rules/empty/EmptySwitchStatementRule.cpp"
#undef rules
#define rules rules7
#include "oclint-rules/rules/empty/EmptyTryStatementRule.cpp"
#undef rules
#define rules rules8
#include "oclint-rules/rules/empty/EmptyCatchStatementRule.cpp"
#undef rules
#define rules rules9
#include "oclint-rules/rules/empty/EmptyFinallyStatementRule.cpp"
#undef rules
VISIT(EmptyIfStatementRule, IfStmt, emptyIf)
ONLY(EmptyIfStatementRule, IfStmt)
VISIT(EmptyElseBlockRule, IfStmt, emptyElse)
ONLY(EmptyElseBlockRule, IfStmt)
VISIT(EmptyWhileStatementRule, WhileStmt, emptyWhile)
ONLY(EmptyWhileStatementRule, WhileStmt)
VISIT(EmptyDoWhileStatementRule, DoStmt, emptyDo)
ONLY(EmptyDoWhileStatementRule, DoStmt)
VISIT(EmptyForStatementRule, ForStmt, emptyFor)
VISIT(EmptyForStatementRule, ObjCForCollectionStmt, emptyForIn)
ONLY(EmptyForStatementRule, ForStmt, ObjCForCollectionStmt)
VISIT(EmptySwitchStatementRule, SwitchStmt, emptySwitch)
ONLY(EmptySwitchStatementRule, SwitchStmt)
VISIT(EmptyTryStatementRule, CXXTryStmt, emptyTry)
VISIT(EmptyTryStatementRule, ObjCAtTryStmt, emptyObjCTry)
ONLY(EmptyTryStatementRule, CXXTryStmt, ObjCAtTryStmt)
VISIT(EmptyCatchStatementRule, CXXCatchStmt, emptyCatch)
VISIT(EmptyCatchStatementRule, ObjCAtCatchStmt, emptyObjCCatch)
ONLY(EmptyCatchStatementRule, CXXCatchStmt, ObjCAtCatchStmt)
VISIT(EmptyFinallyStatementRule, ObjCAtFinallyStmt, emptyFinally)
ONLY(EmptyFinallyStatementRule, ObjCAtFinallyStmt)
