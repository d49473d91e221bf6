"""Which contracts and which replay harness decide each property."""
CORE = ["oclint-core/lib/*.cpp"]

HARNESS = {
    # name: (harness source, real sources compiled from /repo)
    "core": ("harness/core.cpp", CORE + ["oclint-driver/lib/RulesetFilter.cpp"]),
    "reporters": ("harness/reporters.cpp", ["oclint-core/lib/RuleBase.cpp", "oclint-core/lib/Violation.cpp", "oclint-core/lib/Constants.cpp", "oclint-core/lib/RuleCarrier.cpp", "oclint-core/lib/ViolationSet.cpp"] +
                  ["oclint-reporters/reporters/%sReporter.cpp::-Dcreate=create_%s" % (n, n.lower()) for n in ("Text", "Xcode", "JSON", "XML", "PMD", "HTML")]),
    "driver": ("harness/driver.cpp", CORE + ["oclint-driver/lib/%s.cpp" % n for n in ("DiagnosticDispatcher", "RulesetBasedAnalyzer", "Options", "ConfigFile", "RulesetFilter", "Logger")]),
    "exit": ("harness/exit.cpp", CORE + ["oclint-driver/lib/RulesetFilter.cpp", "oclint-driver/lib/RulesetBasedAnalyzer.cpp", "oclint-driver/lib/GenericException.cpp", "oclint-driver/lib/Logger.cpp", "oclint-driver/main.cpp::-Dmain=real_main"]),
    "metrics": ("harness/metrics.cpp", ["oclint-metrics/lib/*.cpp"]),
}
RULES = CORE + ["oclint-rules/lib/*.cpp", "oclint-rules/lib/helper/*.cpp", "oclint-rules/lib/util/*.cpp", "oclint-metrics/lib/*.cpp"]
def rules(prop, *files): HARNESS["rules_" + prop] = ("harness/rules_%s.cpp" % prop.lower(), RULES + ["oclint-rules/rules/%s.cpp" % f for f in files], ["-fno-access-control"])
rules("S02", "empty/*")
rules("S04", *["convention/*Switch*"])
rules("S06", *["basic/%sRule" % n for n in ("ReturnFromFinallyBlock", "ThrowExceptionFromFinallyBlock", "GotoStatement", "ForLoopShouldBeWhileLoop", "JumbledIncrementer", "CollapsibleIfStatements", "DeadCode")],
      "redundant/UnnecessaryElseStatementRule", *["convention/%sRule" % n for n in ("AvoidBranchingStatementAsLastInLoop", "PreferEarlyExit", "ParameterReassignment")])
rules("S03", "basic/BrokenNullCheckRule", "basic/MisplacedNullCheckRule", "redundant/RedundantNilCheckRule")
rules("S05", *["basic/%sRule" % n for n in ("BitwiseOperatorInConditional", "BrokenOddnessCheck", "ConstantConditionalOperator", "ConstantIfExpression", "DoubleNegative", "MultipleUnaryOperator")],
      "convention/InvertedLogicRule", *["redundant/%sRule" % n for n in ("RedundantConditionalOperator", "RedundantIfStatement", "RedundantLocalVariable", "UnnecessaryNullCheckForCXXDealloc", "UselessParentheses")])

rules("S01", "size/*", "naming/*")
rules("S10", "*/*")
rules("S09", "cocoa/*", "migration/*", "convention/ObjCAssignIvarOutsideAccessorsRule")
rules("S08", "convention/DestructorOfVirtualClassRule", "convention/BaseClassDestructorShouldBeVirtualOrProtectedRule", "design/AvoidDefaultArgumentsOnVirtualMethodsRule", "design/AvoidPrivateStaticMembersRule")
rules("S07", "unused/UnusedMethodParameterRule")
HARNESS["framework"] = ("harness/framework.cpp", CORE + ["oclint-rules/lib/*.cpp", "oclint-rules/lib/helper/*.cpp", "oclint-rules/lib/util/*.cpp", "oclint-rules/rules/size/LongLineRule.cpp"], ["-fno-access-control"])

PROPS = {
    "C01": dict(units=[("units/core_results.cpp", ["oclint::UniqueResults::*", "oclint::Violation::*", "oclint::ViolationSet::operator==", "oclint::ViolationSet::getViolations",
                                                    "oclint::ResultCollector::get*", "oclint::AbstractResults::*"])], harness="core"),
    "C02": dict(units=[("units/core_results.cpp", ["oclint::RawResults::*", "oclint::ViolationSet::*", "oclint::ResultCollector::*"])], harness="core"),
    "C03": dict(units=[("units/core_results.cpp", ["oclint::AbstractResults::*"])], harness="core"),
    "C04": dict(units=[("units/core_results.cpp", ["oclint::RuleCarrier::*", "oclint::ViolationSet::*", "oclint::Violation::Violation", "oclint::ResultCollector::*"])], harness="core"),
    "C05": dict(units=[("units/driver_diagnostics.cpp", [])], harness="driver", seconds=6),
    "C06": dict(units=[("units/driver_exit.cpp", [])], harness="exit", seconds=6),
    "C07": dict(units=[("units/driver_filter.cpp", [])], harness="core"),
    "C08": dict(units=[("units/driver_analysis.cpp", [])], harness="driver", seconds=6),
    "C09": dict(units=[("units/core_config.cpp", [])], harness="core"),
    "C12": dict(units=[("units/core_rulebase.cpp", ["oclint::RuleBase::identifier", "oclint::RuleBase::attributeName"])], harness="core"),
    "C13": dict(units=[("units/core_ruleset.cpp", [])], harness="core"),
    "R01": dict(units=[("units/rep_text.cpp", []), ("units/rep_xcode.cpp", [])], harness="reporters"),
    "R02": dict(units=[("units/rep_json.cpp", [])], harness="reporters"),
    "R03": dict(units=[("units/rep_xml.cpp", [])], harness="reporters"),
    "R04": dict(units=[("units/rep_pmd.cpp", [])], harness="reporters"),
    "R05": dict(units=[("units/rep_html.cpp", [])], harness="reporters"),
    "M01": dict(units=[("units/met_ccn.cpp", [])], harness="metrics", seconds=8),
    "M02": dict(units=[("units/met_npath.cpp", [])], harness="metrics", seconds=8),
    "M03": dict(units=[("units/met_ncss.cpp", [])], harness="metrics", seconds=8),
    "M04": dict(units=[("units/met_depth.cpp", [])], harness="metrics", seconds=8),
}
PROPS["C10"] = dict(units=[("units/driver_options.cpp", [])], harness="driver", seconds=6)
PROPS["S02"] = dict(units=[("units/rules_empty.cpp", [])], harness="rules_S02", seconds=8)
PROPS["S01"] = dict(units=[("units/rules_size.cpp", [])], harness="rules_S01", seconds=8)
PROPS["S10"] = dict(units=[("units/rules_meta.cpp", [])], harness="rules_S10", seconds=6)
PROPS["S07"] = dict(units=[("units/rules_unused.cpp", [])], harness="rules_S07", seconds=8)
PROPS["S08"] = dict(units=[("units/rules_class.cpp", [])], harness="rules_S08", seconds=8)
PROPS["S09"] = dict(units=[("units/rules_objc.cpp", [])], harness="rules_S09", seconds=10)
PROPS["S04"] = dict(units=[("units/rules_switch.cpp", [])], harness="rules_S04", seconds=8)
PROPS["S06"] = dict(units=[("units/rules_flow.cpp", [])], harness="rules_S06", seconds=8)
PROPS["S03"] = dict(units=[("units/rules_null.cpp", [])], harness="rules_S03", seconds=8)
PROPS["S05"] = dict(units=[("units/rules_expr.cpp", [])], harness="rules_S05", seconds=8)
FW = lambda *u: dict(units=[("units/fw_%s.cpp" % x if isinstance(x, str) else ("units/fw_%s.cpp" % x[0]), [] if isinstance(x, str) else x[1]) for x in u], harness="framework", seconds=8)
PLACE = ["oclint::AbstractASTRuleBase::addViolation*", "oclint::RuleCarrier::*"]
PROPS["F01"] = FW("visit", "match", ("report", ["oclint::AbstractASTRuleBase::isLanguageSupported"]))
PROPS["F02"] = FW("suppress", ("report", PLACE + ["oclint::AbstractSourceCodeReaderRule::addViolation"]))
PROPS["F03"] = FW("attr")
PROPS["F04"] = FW(("report", PLACE))
PROPS["F05"] = FW(("report", ["oclint::AbstractSourceCodeReaderRule::*", "LongLineRule::eachLine", "oclint::RuleCarrier::*"]))
NOT_APPLICABLE = {}
