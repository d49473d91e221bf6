// S01: sizes and names.
// cppvc: user /usr/lib/llvm-20/include/clang/AST/#WalkUpFrom,Visit,getDerived,should
#include "rules.h"
#include "specs/s01.h"
#include "oclint-core/lib/RuleCarrier.cpp"
#include "oclint-rules/lib/util/ASTUtil.cpp"
#define rules rules1
#include "oclint-rules/rules/size/CyclomaticComplexityRule.cpp"
#undef rules
#define rules rules2
#include "oclint-rules/rules/size/LongClassRule.cpp"
#undef rules
#define rules rules3
#include "oclint-rules/rules/size/LongMethodRule.cpp"
#undef rules
#define rules rules4
#include "oclint-rules/rules/size/NPathComplexityRule.cpp"
#undef rules
#define rules rules5
#include "oclint-rules/rules/size/NcssMethodCountRule.cpp"
#undef rules
#define rules rules6
#include "oclint-rules/rules/size/NestedBlockDepthRule.cpp"
#undef rules
#define rules rules7
#include "oclint-rules/rules/size/TooManyFieldsRule.cpp"
#undef rules
#define rules rules8
#include "oclint-rules/rules/size/TooManyMethodsRule.cpp"
#undef rules
#define rules rules9
#include "oclint-rules/rules/size/TooManyParametersRule.cpp"
#undef rules
#define rules rules10
#include "oclint-rules/rules/naming/LongVariableNameRule.cpp"
#undef rules
#define rules rules11
#include "oclint-rules/rules/naming/ShortVariableNameRule.cpp"
#undef rules
// decided in M01 to M04
ASSUME("getCyclomaticComplexity") int a_ccn(clang::Decl* d) { return spec::cyclomaticOf(d); }
ASSUME("getNPathComplexity") int a_npath(clang::Stmt* s) { return spec::npathOf(s); }
ASSUME("getNcssCount") int a_ncss(clang::Decl* d) { return spec::ncssOf(d); }
ASSUME("getStmtDepth") int a_depth(clang::Stmt* s) { return spec::depthOf(s); }
CONTRACT("getLineCount") int c_lines(clang::SourceRange range, const clang::SourceManager& sm) { return spec::lines(range, sm); }

#define WITH(RULE, KIND, NAME, CALL) \
  bool NAME(RULE& rule, clang::KIND* s) { return rule.WalkUpFrom##KIND(s); } \
  CONTRACT(#NAME) bool c_##NAME(RULE& rule, clang::KIND* s) { REQUIRES(s != nullptr); CALL; return true; }
// clang: a function whose declaration has the body has a body
#define BODY REQUIRES(!s->doesThisDeclarationHaveABody() || s->hasBody())
VISIT(CyclomaticComplexityRule, FunctionDecl, ccnFunction)
VISIT(CyclomaticComplexityRule, ObjCMethodDecl, ccnMethod)
ONLY(CyclomaticComplexityRule, FunctionDecl, ObjCMethodDecl)
WITH(NPathComplexityRule, FunctionDecl, npathFunction, BODY; spec::npathFunction(&rule, s))
VISIT(NPathComplexityRule, ObjCMethodDecl, npathMethod)
ONLY(NPathComplexityRule, FunctionDecl, ObjCMethodDecl)
VISIT(NcssMethodCountRule, FunctionDecl, ncssFunction)
VISIT(NcssMethodCountRule, ObjCMethodDecl, ncssMethod)
ONLY(NcssMethodCountRule, FunctionDecl, ObjCMethodDecl)
VISIT(NestedBlockDepthRule, CompoundStmt, depth)
ONLY(NestedBlockDepthRule, CompoundStmt)
#define SOURCES rule._carrier->getASTContext()->getSourceManager()
WITH(LongMethodRule, FunctionDecl, longFunction, BODY; spec::longFunction(&rule, s, SOURCES))
WITH(LongMethodRule, ObjCMethodDecl, longMethod, spec::longMethod(&rule, s, SOURCES))
ONLY(LongMethodRule, FunctionDecl, ObjCMethodDecl)
// the limits are those configured when the analysis of the file starts
#define SETUP(RULE, FIELD, VALUE) CONTRACT(#RULE "::setUp") void c_setUp##RULE(RULE& rule) { rule.FIELD = VALUE; }
#define LONGCLASS(KIND, NAME, WHAT) WITH(LongClassRule, KIND, NAME, spec::longClass(&rule, s, SOURCES, rule._threshold, WHAT))
SETUP(LongClassRule, _threshold, spec::classLimit())
LONGCLASS(CXXRecordDecl, classCXX, "C++ class")
LONGCLASS(ObjCInterfaceDecl, classInterface, "Objective-C interface")
LONGCLASS(ObjCCategoryDecl, classCategory, "Objective-C category")
LONGCLASS(ObjCProtocolDecl, classProtocol, "Objective-C protocol")
LONGCLASS(ObjCImplDecl, classImpl, "Objective-C implementation")
ONLY(LongClassRule, CXXRecordDecl, ObjCInterfaceDecl, ObjCCategoryDecl, ObjCProtocolDecl, ObjCImplDecl)
SETUP(TooManyFieldsRule, _threshold, spec::fieldsLimit())
WITH(TooManyFieldsRule, CXXRecordDecl, fieldsCXX, spec::fieldsCXX(&rule, s, rule._threshold))
WITH(TooManyFieldsRule, ObjCInterfaceDecl, fieldsObjC, spec::fieldsObjC(&rule, s, rule._threshold))
ONLY(TooManyFieldsRule, CXXRecordDecl, ObjCInterfaceDecl)
SETUP(TooManyMethodsRule, _threshold, spec::methodsLimit())
WITH(TooManyMethodsRule, CXXRecordDecl, methodsCXX, spec::methodsCXX(&rule, s, rule._threshold))
WITH(TooManyMethodsRule, ObjCImplDecl, methodsObjC, spec::methodsObjC(&rule, s, rule._threshold))
ONLY(TooManyMethodsRule, CXXRecordDecl, ObjCImplDecl)
SETUP(TooManyParametersRule, _threshold, spec::parametersLimit())
WITH(TooManyParametersRule, FunctionDecl, parametersFunction, BODY; spec::parametersFunction(&rule, s, rule._threshold))
WITH(TooManyParametersRule, ObjCMethodDecl, parametersMethod, spec::parametersMethod(&rule, s, rule._threshold))
ONLY(TooManyParametersRule, FunctionDecl, ObjCMethodDecl)
VISIT(LongVariableNameRule, VarDecl, longName)
ONLY(LongVariableNameRule, VarDecl)
// a header comes before the variables it declares
SETUP(ShortVariableNameRule, _suppressVarDecls, std::set<VarDecl*>())
WITH(ShortVariableNameRule, VarDecl, shortName, spec::shortName(&rule, s, rule._suppressVarDecls))
WITH(ShortVariableNameRule, ForStmt, headerFor, rule._suppressVarDecls = spec::with(rule._suppressVarDecls, s->getInit()))
WITH(ShortVariableNameRule, CXXForRangeStmt, headerForRange, rule._suppressVarDecls = spec::with(rule._suppressVarDecls, s->getLoopVariable()))
WITH(ShortVariableNameRule, ObjCForCollectionStmt, headerForIn, rule._suppressVarDecls = spec::with(rule._suppressVarDecls, s->getElement()))
WITH(ShortVariableNameRule, CXXCatchStmt, headerCatch, rule._suppressVarDecls = spec::with(rule._suppressVarDecls, s->getExceptionDecl()))
ONLY(ShortVariableNameRule, VarDecl, ForStmt, CXXForRangeStmt, ObjCForCollectionStmt, CXXCatchStmt)
