// S10: what every rule says about itself.  Written by tools/mkmeta.py.
#include "rules.h"
#include "oclint-core/lib/RuleConfiguration.cpp"
#include "oclint-core/lib/RuleBase.cpp"
#define rules rules0
#include "oclint-rules/rules/basic/BitwiseOperatorInConditionalRule.cpp"
#undef rules
#define rules rules1
#include "oclint-rules/rules/basic/BrokenNullCheckRule.cpp"
#undef rules
#define rules rules2
#include "oclint-rules/rules/basic/BrokenOddnessCheckRule.cpp"
#undef rules
#define rules rules3
#include "oclint-rules/rules/basic/CollapsibleIfStatementsRule.cpp"
#undef rules
#define rules rules4
#include "oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp"
#undef rules
#define rules rules5
#include "oclint-rules/rules/basic/ConstantIfExpressionRule.cpp"
#undef rules
#define rules rules6
#include "oclint-rules/rules/basic/DeadCodeRule.cpp"
#undef rules
#define rules rules7
#include "oclint-rules/rules/basic/DoubleNegativeRule.cpp"
#undef rules
#define rules rules8
#include "oclint-rules/rules/basic/ForLoopShouldBeWhileLoopRule.cpp"
#undef rules
#define rules rules9
#include "oclint-rules/rules/basic/GotoStatementRule.cpp"
#undef rules
#define rules rules10
#include "oclint-rules/rules/basic/JumbledIncrementerRule.cpp"
#undef rules
#define rules rules11
#include "oclint-rules/rules/basic/MisplacedNullCheckRule.cpp"
#undef rules
#define rules rules12
#include "oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp"
#undef rules
#define rules rules13
#include "oclint-rules/rules/basic/ReturnFromFinallyBlockRule.cpp"
#undef rules
#define rules rules14
#include "oclint-rules/rules/basic/ThrowExceptionFromFinallyBlockRule.cpp"
#undef rules
#define rules rules15
#include "oclint-rules/rules/cocoa/ObjCVerifyIsEqualHashRule.cpp"
#undef rules
#define rules rules16
#include "oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp"
#undef rules
#define rules rules17
#include "oclint-rules/rules/cocoa/ObjCVerifyProhibitedCallRule.cpp"
#undef rules
#define rules rules18
#include "oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp"
#undef rules
#define rules rules19
#include "oclint-rules/rules/cocoa/ObjCVerifySubclassMustImplementRule.cpp"
#undef rules
#define rules rules20
#include "oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp"
#undef rules
#define rules rules21
#include "oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp"
#undef rules
#define rules rules22
#include "oclint-rules/rules/convention/CoveredSwitchStatementsDontNeedDefaultRule.cpp"
#undef rules
#define rules rules23
#include "oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp"
#undef rules
#define rules rules24
#include "oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp"
#undef rules
#define rules rules25
#include "oclint-rules/rules/convention/InvertedLogicRule.cpp"
#undef rules
#define rules rules26
#include "oclint-rules/rules/convention/MissingBreakInSwitchStatementRule.cpp"
#undef rules
#define rules rules27
#include "oclint-rules/rules/convention/NonCaseLabelInSwitchStatementRule.cpp"
#undef rules
#define rules rules28
#include "oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp"
#undef rules
#define rules rules29
#include "oclint-rules/rules/convention/ParameterReassignmentRule.cpp"
#undef rules
#define rules rules30
#include "oclint-rules/rules/convention/PreferEarlyExitRule.cpp"
#undef rules
#define rules rules31
#include "oclint-rules/rules/convention/SwitchStatementsShouldHaveDefaultRule.cpp"
#undef rules
#define rules rules32
#include "oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp"
#undef rules
#define rules rules33
#include "oclint-rules/rules/cuda/CudaBranchDivergenceRule.cpp"
#undef rules
#define rules rules34
#include "oclint-rules/rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp"
#undef rules
#define rules rules35
#include "oclint-rules/rules/design/AvoidPrivateStaticMembersRule.cpp"
#undef rules
#define rules rules36
#include "oclint-rules/rules/design/FeatureEnvyRule.cpp"
#undef rules
#define rules rules37
#include "oclint-rules/rules/empty/EmptyCatchStatementRule.cpp"
#undef rules
#define rules rules38
#include "oclint-rules/rules/empty/EmptyDoWhileStatementRule.cpp"
#undef rules
#define rules rules39
#include "oclint-rules/rules/empty/EmptyElseBlockRule.cpp"
#undef rules
#define rules rules40
#include "oclint-rules/rules/empty/EmptyFinallyStatementRule.cpp"
#undef rules
#define rules rules41
#include "oclint-rules/rules/empty/EmptyForStatementRule.cpp"
#undef rules
#define rules rules42
#include "oclint-rules/rules/empty/EmptyIfStatementRule.cpp"
#undef rules
#define rules rules43
#include "oclint-rules/rules/empty/EmptySwitchStatementRule.cpp"
#undef rules
#define rules rules44
#include "oclint-rules/rules/empty/EmptyTryStatementRule.cpp"
#undef rules
#define rules rules45
#include "oclint-rules/rules/empty/EmptyWhileStatementRule.cpp"
#undef rules
#define rules rules46
#include "oclint-rules/rules/migration/ObjCBoxedExpressionsRule.cpp"
#undef rules
#define rules rules47
#include "oclint-rules/rules/migration/ObjCContainerLiteralsRule.cpp"
#undef rules
#define rules rules48
#include "oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp"
#undef rules
#define rules rules49
#include "oclint-rules/rules/migration/ObjCObjectSubscriptingRule.cpp"
#undef rules
#define rules rules50
#include "oclint-rules/rules/naming/LongVariableNameRule.cpp"
#undef rules
#define rules rules51
#include "oclint-rules/rules/naming/ShortVariableNameRule.cpp"
#undef rules
#define rules rules52
#include "oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp"
#undef rules
#define rules rules53
#include "oclint-rules/rules/redundant/RedundantIfStatementRule.cpp"
#undef rules
#define rules rules54
#include "oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp"
#undef rules
#define rules rules55
#include "oclint-rules/rules/redundant/RedundantNilCheckRule.cpp"
#undef rules
#define rules rules56
#include "oclint-rules/rules/redundant/UnnecessaryElseStatementRule.cpp"
#undef rules
#define rules rules57
#include "oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp"
#undef rules
#define rules rules58
#include "oclint-rules/rules/redundant/UselessParenthesesRule.cpp"
#undef rules
#define rules rules59
#include "oclint-rules/rules/size/CyclomaticComplexityRule.cpp"
#undef rules
#define rules rules60
#include "oclint-rules/rules/size/LongClassRule.cpp"
#undef rules
#define rules rules61
#include "oclint-rules/rules/size/LongLineRule.cpp"
#undef rules
#define rules rules62
#include "oclint-rules/rules/size/LongMethodRule.cpp"
#undef rules
#define rules rules63
#include "oclint-rules/rules/size/NPathComplexityRule.cpp"
#undef rules
#define rules rules64
#include "oclint-rules/rules/size/NcssMethodCountRule.cpp"
#undef rules
#define rules rules65
#include "oclint-rules/rules/size/NestedBlockDepthRule.cpp"
#undef rules
#define rules rules66
#include "oclint-rules/rules/size/TooManyFieldsRule.cpp"
#undef rules
#define rules rules67
#include "oclint-rules/rules/size/TooManyMethodsRule.cpp"
#undef rules
#define rules rules68
#include "oclint-rules/rules/size/TooManyParametersRule.cpp"
#undef rules
#define rules rules69
#include "oclint-rules/rules/unused/UnusedLocalVariableRule.cpp"
#undef rules
#define rules rules70
#include "oclint-rules/rules/unused/UnusedMethodParameterRule.cpp"
#undef rules
// whatever state the rule is in, whatever is configured and whatever is configured between two answers
#define ANSWERS(RULE, PRIORITY) \
  bool meta_##RULE(RULE& a, RULE& b, const std::string& key, const std::string& value) { \
    std::string name = a.RULE::name(), category = a.RULE::category(); \
    int priority = a.RULE::priority(); \
    oclint::RuleConfiguration::addConfiguration(key, value); \
    return name == b.RULE::name() && !name.empty() && category == b.RULE::category() && !category.empty() && priority == b.RULE::priority() && (PRIORITY); \
  } \
  CONTRACT("meta_" #RULE) bool c_##RULE(RULE& a, RULE& b, const std::string& key, const std::string& value) { oclint::RuleConfiguration::addConfiguration(key, value); return true; }
#define META(RULE) ANSWERS(RULE, priority >= 1 && priority <= 3)
// known finding: this rule's priority is 10, which its own test expects
META(BitwiseOperatorInConditionalRule)
META(BrokenNullCheckRule)
META(BrokenNilCheckRule)
META(BrokenOddnessCheckRule)
META(CollapsibleIfStatementsRule)
META(ConstantConditionalOperatorRule)
META(ConstantIfExpressionRule)
META(DeadCodeRule)
META(DoubleNegativeRule)
META(ForLoopShouldBeWhileLoopRule)
META(GotoStatementRule)
META(JumbledIncrementerRule)
META(MisplacedNullCheckRule)
META(MisplacedNilCheckRule)
META(MultipleUnaryOperatorRule)
META(ReturnFromFinallyBlockRule)
META(ThrowExceptionFromFinallyBlockRule)
META(ObjCVerifyIsEqualHashRule)
META(ObjCVerifyMustCallSuperRule)
META(ObjCVerifyProhibitedCallRule)
META(ObjCVerifyProtectedMethodRule)
META(ObjCVerifySubclassMustImplementRule)
META(AvoidBranchingStatementAsLastInLoopRule)
META(BaseClassDestructorShouldBeVirtualOrProtectedRule)
META(CoveredSwitchStatementsDontNeedDefaultRule)
META(DefaultLabelNotLastInSwitchStatementRule)
META(DestructorOfVirtualClassRule)
META(InvertedLogicRule)
META(MissingBreakInSwitchStatementRule)
META(NonCaseLabelInSwitchStatementRule)
META(ObjCAssignIvarOutsideAccessorsRule)
META(ParameterReassignmentRule)
META(PreferEarlyExitRule)
META(SwitchStatementsShouldHaveDefaultRule)
META(TooFewBranchesInSwitchStatementRule)
ANSWERS(CudaBranchDivergenceRule, priority == 10 || (priority >= 1 && priority <= 3))
META(AvoidDefaultArgumentsOnVirtualMethodsRule)
META(AvoidPrivateStaticMembersRule)
META(FeatureEnvyRule)
META(EmptyCatchStatementRule)
META(EmptyDoWhileStatementRule)
META(EmptyElseBlockRule)
META(EmptyFinallyStatementRule)
META(EmptyForStatementRule)
META(EmptyIfStatementRule)
META(EmptySwitchStatementRule)
META(EmptyTryStatementRule)
META(EmptyWhileStatementRule)
META(ObjCBoxedExpressionsRule)
META(ObjCContainerLiteralsRule)
META(ObjCNSNumberLiteralsRule)
META(ObjCObjectSubscriptingRule)
META(LongVariableNameRule)
META(ShortVariableNameRule)
META(RedundantConditionalOperatorRule)
META(RedundantIfStatementRule)
META(RedundantLocalVariableRule)
META(RedundantNilCheckRule)
META(UnnecessaryElseStatementRule)
META(UnnecessaryNullCheckForCXXDeallocRule)
META(UselessParenthesesRule)
META(CyclomaticComplexityRule)
META(LongClassRule)
META(LongLineRule)
META(LongMethodRule)
META(NPathComplexityRule)
META(NcssMethodCountRule)
META(NestedBlockDepthRule)
META(TooManyFieldsRule)
META(TooManyMethodsRule)
META(TooManyParametersRule)
META(UnusedLocalVariableRule)
META(UnusedMethodParameterRule)
