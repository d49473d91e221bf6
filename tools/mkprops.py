#!/usr/bin/env python3
# Regenerates properties.jsonl from the table below.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

CORE = "oclint-core/lib/"; DRV = "oclint-driver/lib/"; REP = "oclint-reporters/reporters/"
MET = "oclint-metrics/lib/"; RUL = "oclint-rules/"

p("C01", "Deduplicated results: each distinct violation exactly once, in first order",
  "When duplicates are to be removed, the reported violations are exactly the distinct recorded violations (rule, path, four source positions and message all equal means duplicate), each once, in order of first occurrence across all analysed translation units. The same holds for compiler errors, compiler warnings and static-checker findings. Counts by priority, by file and the emptiness questions agree with those deduplicated lists.",
  ["inputs", "histories"], "every sequence of violation sets, each with any violations, in any order and multiplicity",
  "Tests add one or two hand-written violations; a lost, merged or reordered entry in longer or differently equal histories is not sampled.",
  [CORE+"UniqueResults.cpp", CORE+"Violation.cpp", CORE+"AbstractResults.cpp"],
  [("duplicate elimination", CORE+"UniqueResults.cpp"), ("violation equality", CORE+"UniqueResults.cpp")])

p("C02", "Undeduplicated results are the complete, ordered collection",
  "Without deduplication, the violations, compiler errors, compiler warnings and static-checker findings reported are exactly those recorded for every translation unit, nothing missing, added or altered. They come in the order in which translation units and then violations were recorded.",
  ["inputs", "histories"], "every collected history of violation sets",
  "Tests use at most a couple of sets; concatenation over any number of sets of any length is a universally quantified statement.",
  [CORE+"RawResults.cpp", CORE+"ResultCollector.cpp", CORE+"ViolationSet.cpp"],
  [("flattening of violation sets", CORE+"RawResults.cpp")])

p("C03", "Summary numbers agree with the reported violations",
  "The number of violations of a priority is the number of reported violations whose rule has that priority, and the total is the length of the reported list. The number of analysed files is the number of recorded translation units, and the number of files with violations is the number of distinct files among the first violations of those units that have any. The questions whether there are errors, warnings or checker findings are answered yes exactly when the corresponding list is not empty.",
  ["inputs", "histories"], "every result collection, for both the deduplicating and the plain result sets",
  "Tests check counts for one or two violations of fixed priorities.",
  [CORE+"AbstractResults.cpp", CORE+"RawResults.cpp", CORE+"UniqueResults.cpp"],
  [("summary computations", CORE+"AbstractResults.cpp")])

p("C04", "Recording appends exactly one violation and loses nothing",
  "Recording a violation through the carrier given to a rule appends exactly one violation, with exactly the given rule, file, positions and message, to the end of that translation unit's set, unless the file path is empty, in which case nothing changes. Recording in any one set, or an error, warning or checker finding in the collector, leaves everything recorded earlier unchanged and in order.",
  ["inputs", "histories"], "every state of the violation set and every argument tuple",
  "Tests record one violation and compare one field; swapped positions, dropped duplicates or reordered history are not excluded.",
  [CORE+"RuleCarrier.cpp", CORE+"ViolationSet.cpp", CORE+"Violation.cpp", CORE+"ResultCollector.cpp"],
  [("appending to the violation set", CORE+"ViolationSet.cpp"), ("carrier", CORE+"RuleCarrier.cpp")])

p("C05", "Compiler diagnostics reach the right list with location and message",
  "Each compiler diagnostic adds at most one entry: errors and fatal errors go to the compiler errors and warnings to the compiler warnings, while notes, remarks and ignored diagnostics add nothing. While the static analyser runs, every diagnostic, notes included, goes to the checker findings instead. The entry carries the diagnostic's formatted text and the file, presumed line and column of its location (for a macro the file of the expansion), and an empty file with zero positions when it has none.",
  ["inputs", "histories"], "every diagnostic level, every location validity, both modes, any sequence of diagnostics",
  "No existing test exercises the diagnostic consumer over all levels and modes.",
  [DRV+"DiagnosticDispatcher.cpp"], [("diagnostic routing", DRV+"DiagnosticDispatcher.cpp")])

p("C06", "Exit status tells exactly whether thresholds, errors or setup failed",
  "The tool reports success exactly when analysis completed, no compiler errors were collected, and the number of violations of each priority does not exceed the configured limit for that priority. A count equal to its limit does not fail, and a limit of one priority never affects another.",
  ["inputs", "configurations"], "all violation counts, all threshold values, all collected results",
  "Command-line driver code is compiled but no test links or runs it.",
  ["oclint-driver/main.cpp"], [("threshold comparison", "oclint-driver/main.cpp"), ("exit status", "oclint-driver/main.cpp")])

p("C07", "Rule selection: enabled minus disabled, order kept, each at most once",
  "The set of rules that run is every loaded rule, or only the explicitly enabled ones when any are still enabled, minus every disabled one. The selected rules keep the order in which they were loaded, and none appears that was not loaded. When a rule is both enabled and disabled the later request counts and cancels the earlier one.",
  ["inputs", "configurations"], "every list of loaded rules and every sequence of enable and disable requests",
  "Tests use three or four rules and a few fixed combinations.",
  [DRV+"RulesetFilter.cpp"], [("filtering", DRV+"RulesetFilter.cpp")])

p("C08", "Every selected rule sees every translation unit exactly once",
  "Analysing a list of translation units applies each selected rule to each unit exactly once, in rule order, and produces exactly one set of violations per unit, in unit order. The violations a rule records while it is applied to a unit land in that unit's own set.",
  ["inputs", "histories"], "every list of contexts and every list of rules",
  "Tests analyse at most one unit with one mock rule.",
  [DRV+"RulesetBasedAnalyzer.cpp"], [("analysis loop", DRV+"RulesetBasedAnalyzer.cpp")])

p("C09", "Rule configuration: last value wins, other keys unaffected, default if unset",
  "After any sequence of settings, asking for a key yields the last value set for that key, converted to the requested kind, and asking for a key never set yields the caller's default. Setting one key never changes, adds or removes another, and removing all settings makes every key unset.",
  ["inputs", "histories"], "every sequence of set and remove-all operations followed by any query",
  "Tests set one or two keys.",
  ["oclint-core/lib/RuleConfiguration.cpp"], [("configuration store", "oclint-core/lib/RuleConfiguration.cpp")])

p("C10", "Options: command line over configuration files, later file over earlier",
  "Every option with a single value (output, report type, the limits for the three priorities, global analysis, static analyzer, duplicated violations) that is given on the command line keeps that value whatever the configuration files say; otherwise the last consulted configuration file that sets it wins (the installation's, then the one in the home directory if HOME is set and not empty, then the one in the working directory, however long the paths are), and otherwise the documented default applies. In a file an empty text and the number -2147483648 set nothing. Rule directories are those of the command line followed by those of the files in order, and the default directory if there is none. A rule threshold given as key=value on the command line, split at the last equals sign, is recorded under exactly that key with exactly that value, over any given in a file; among several the last counts. Rules to use and to leave out are taken from the files in order, then from the command line, in each place first the ones to use and then the ones to leave out; for every rule the last word counts.",
  ["configurations", "inputs"], "all combinations of present or absent command-line and file settings, any key and value text",
  "Tests cover single options one at a time.",
  [DRV+"Options.cpp", DRV+"ConfigFile.cpp"], [("option merging", DRV+"Options.cpp"), ("file mapping", DRV+"ConfigFile.cpp")])

p("C12", "A rule's identifier is the CamelCase form of its name",
  "The identifier of a rule is its name with everything but the letters removed, the first character and every letter that follows a non-letter put in upper case, and all other letters unchanged and in order. Rules with the same name always have the same identifier. Unless a rule says otherwise, the name under which it is suppressed is its name.",
  ["inputs"], "every rule name, including leading, trailing and repeated spaces and the empty name",
  "Tests use two or three well-formed names.",
  [CORE+"RuleBase.cpp"], [("identifier", CORE+"RuleBase.cpp")])

p("C13", "The rule registry keeps every registered rule, once, in order",
  "Registering a rule adds it as the last entry and leaves all others in place; the number of rules is the number of registrations; looking up a valid position gives the rule registered at that position, and any other position gives no rule.",
  ["inputs", "histories"], "every registration history and every position",
  "Tests register one or two rules.",
  [CORE+"RuleSet.cpp"], [("registry", CORE+"RuleSet.cpp")])

for (i, name, f, st) in [
  ("R01", "Text and Xcode reports list every violation once with exact fields", ["TextReporter.cpp", "XcodeReporter.cpp"],
   "A text report contains exactly one line for each reported violation, in order, with the violation's file, line, column, rule name, rule category, priority and message unaltered, and one entry with place and message for every compiler error, compiler warning and checker finding in its section; the numbers in its summary line equal those of the results, and sections without entries are left out. An Xcode report consists of exactly one such line, marked as a warning, for each reported violation, in order."),
  ("R02", "JSON report is well formed and lists every violation once with exact fields", ["JSONReporter.cpp"],
   "The JSON report is a single well-formed JSON document for every possible set of results, with strings escaped as JSON requires. Its summary numbers equal those of the results, and its list of violations and its list of checker findings contain exactly one entry per item, in order, whose decoded fields equal the item's fields; the end position is given when both its numbers are not zero."),
  ("R03", "XML report is well formed and lists every violation once with exact fields", ["XMLReporter.cpp"],
   "The XML report is well formed for every possible set of results whose texts XML can represent, with attribute values escaped as XML requires. Its summary numbers equal those of the results, its date and time are those of the report in UTC, and it contains exactly one element per violation and per checker finding, in order, whose decoded attributes equal the item's fields; the end position is given when both its numbers are not zero."),
  ("R04", "PMD report is well formed and lists every violation once with exact fields", ["PMDReporter.cpp"],
   "The PMD report is well formed XML for every possible set of results whose texts XML can represent. It contains exactly one file element with one violation element per compiler error, compiler warning, violation and checker finding, in this order, whose decoded attributes and text equal the item's file, positions, rule, category and message, with oclint priorities 1, 2 and 3 given as PMD priorities 1, 3 and 5."),
  ("R05", "HTML report lists every violation once with exact, escaped fields", ["HTMLReporter.cpp"],
   "The HTML report contains exactly one table row per violation, in order, and per compiler error, warning and checker finding, whose displayed text equals the item's file, position, rule, category, priority and message, for every possible content of those fields. The numbers in its summary table equal those of the results."),
]:
  p(i, name, st, ["inputs"], "every result collection: any number of items with any field contents, including special characters",
    "Tests compare the output for one or two violations with plain texts.", [REP+x for x in f],
    [("report writer", REP+f[0])], ["the report stream"])

p("M01", "Cyclomatic complexity is decision points plus one",
  "The cyclomatic complexity of a declaration or statement is one plus the number of decision points in it: if, for, Objective-C for-in, while, do and case statements, C++ and Objective-C catch clauses, conditional operators and short-circuit and/or operators. Nothing else changes it, and every decision point counts exactly once at any nesting depth.",
  ["programs"], "every program the front end accepts",
  "Tests measure a few dozen short snippets.",
  [MET+"CyclomaticComplexityMetric.cpp"], [("decision point counting", MET+"CyclomaticComplexityMetric.cpp")])
p("M02", "NPath complexity follows Nejmeh's composition rules",
  "The NPath complexity follows Nejmeh: of a block, the product over its statements; of if, the condition plus the then-part plus the else-part (1 without one); of while and do, condition plus body plus 1; of for, its four parts plus 1; of for-in, body plus 2; of switch, the condition plus, for each label in its block, the product from that label up to the next. A condition counts its short-circuit operators, and 2 for each conditional operator; any other statement counts 1. A value beyond the largest int is given as the largest int, it never wraps around.",
  ["programs"], "every statement tree of any size and nesting",
  "Tests measure small snippets; the recursion over arbitrary nesting and large products is not reached.",
  [MET+"NPathComplexityMetric.cpp"], [("NPath recursion", MET+"NPathComplexityMetric.cpp")])
p("M03", "NCSS counts every statement and declaration exactly once",
  "The non-commenting source statement count of a function is one plus the counts of the statements in its body, each counted exactly once: if, while, for, for-in, switch, case, default, try, catch and finally clauses, synchronized and autorelease-pool statements count 1 plus what is nested in them, else 1, do 2; a block counts what is in it, a null statement 0, and any other statement 1. Comments, blank lines and braces do not change it, and a declaration without a body counts 0.",
  ["programs"], "every program the front end accepts",
  "Tests measure small snippets.",
  [MET+"NcssMetric.cpp"], [("NCSS recursion", MET+"NcssMetric.cpp")])
p("M04", "Block depth is the deepest nesting of blocks and control bodies",
  "The depth of a statement is the largest number of blocks nested in one another in it. The bodies of if, else, loops, switch, case, try, catch, finally, synchronized and autorelease-pool statements are followed whether braced or not, but only a braced block adds a level; any other statement has depth 0.",
  ["programs"], "every statement tree",
  "Tests measure small snippets.",
  [MET+"StmtDepthMetric.cpp"], [("depth recursion", MET+"StmtDepthMetric.cpp")])

p("F01", "Rules visit every main-file declaration and only in supported languages",
  "A rule built on syntax-tree visiting or matching is applied to every explicit top-level declaration of the translation unit whose first token stands (or, from a macro, is expanded) in the analysed main file, each once and in order, and to none that comes from an included file; the visitor and the matchers see each node in it. In a file of a language the rule does not declare as supported (C, C++, Objective-C; Objective-C++ counts as Objective-C), or when the rule does not support host functions, nothing is done at all. In a CUDA file functions are given to the rule when it supports their kind (global or host) and other declarations always. Set-up runs once before and tear-down once after the visit.",
  ["programs", "configurations"], "every translation unit, every language combination",
  "Tests use single-file snippets in one language at a time.",
  [RUL+"include/oclint/AbstractASTVisitorRule.h", RUL+"lib/AbstractASTMatcherRule.cpp", RUL+"lib/AbstractASTRuleBase.cpp"],
  [("main-file traversal", RUL+"include/oclint/AbstractASTVisitorRule.h"), ("language gate", RUL+"lib/AbstractASTRuleBase.cpp")])
p("F02", "Suppression hides exactly the violations it names",
  "A report about a declaration or statement is dropped exactly when it (a declaration) or a declaration around it carries an annotation that suppresses everything or that rule, or it lies in the main file and its first line is the first line of a documentation comment of the main file containing //!OCLINT (comments with only white space between them count as one). A report about a source line is dropped exactly when such a comment starts on the line or the line lies within the lines of a declaration of the main file annotated that way. Every other report is recorded, and whether one is dropped never depends on which other rules, files or translation units were analysed before.",
  ["programs", "histories"], "every placement of annotations and comments, every order of rules",
  "Tests suppress one rule at a time in fresh processes.",
  [RUL+"lib/helper/SuppressHelper.cpp", RUL+"lib/AbstractASTRuleBase.cpp"], [("suppression decision", RUL+"lib/helper/SuppressHelper.cpp")])
p("F03", "Annotation attributes are recognised exactly",
  "A declaration is taken to carry a plain annotation (such as oclint:suppress) exactly when the text of one of its annotation attributes equals it, and one for a rule exactly when such a text begins with oclint:kind[rule name]. The comment returned is the text between the first bracket after that and a bracket that ends the text, and nothing is returned otherwise. An Objective-C method also counts as annotated for a rule when its property, or for a method of a class a declaration of the same method in a category of the class, is annotated for it. Any other text never matches and every matching one does, wherever it stands among other attributes.",
  ["inputs", "programs"], "every annotation text and every list of attributes",
  "Tests try a handful of texts.",
  [RUL+"lib/helper/AttributeHelper.cpp"], [("annotation parsing", RUL+"lib/helper/AttributeHelper.cpp")])
p("F04", "A violation's location is the source range of the offending node",
  "A violation recorded for a syntax-tree node carries the file, and the presumed line and column, where the node's source range begins, the line and column where the range's last token begins, the reporting rule and the message, and every such report that is not suppressed is recorded. Text from a macro argument is located where it is written in the file, other text produced by a macro at the place where the macro is expanded, never at unrelated text.",
  ["programs"], "every node at every position, including nodes from macro expansions",
  "Tests check fixed coordinates for a few snippets.",
  [RUL+"lib/AbstractASTRuleBase.cpp"], [("location computation", RUL+"lib/AbstractASTRuleBase.cpp")])
p("F05", "Source-line rules see every line of the main file once, numbered from one",
  "A rule that works on source lines is given every line of the main file exactly once, in order, with its exact text without the line feed that ends it and its number counted from one; there is no line after a final line feed. The long-line rule flags a line exactly when its length in bytes exceeds the configured limit (100 by default).",
  ["inputs"], "every file content",
  "Tests use short fixed files.",
  [RUL+"lib/AbstractSourceCodeReaderRule.cpp", RUL+"rules/size/LongLineRule.cpp"], [("line splitting", RUL+"lib/AbstractSourceCodeReaderRule.cpp")])

G = [
 ("S01", "Size and naming rules flag exactly the measures beyond the threshold", ["size", "naming"],
  "Each size rule reports a construct exactly when its measure is greater than the limit, which is the configured value or the documented default; short variable name, when the length is below it. Functions and Objective-C methods are measured once, where their body is: cyclomatic and NPath complexity, statement count, lines of the body (C++ methods written inside their class not), number of parameters. Every block is measured for nesting depth, every declaration of a C++ class or Objective-C interface, category, protocol or implementation for its lines, a class definition for its fields, an implementation or C++ class for the methods written in it. "
  "Each named variable is measured for its name's length; variables declared in the header of a for, for-in or range-for loop or of a C++ handler may be short. Each offending construct is reported exactly once, with its measure and the limit in the message (a name longer than the limit by more than 10 is abbreviated)."),
 ("S02", "Empty-statement rules flag exactly the empty bodies", ["empty", "abstract"],
  "Each empty-statement rule (if, else, while, do-while, for, switch, try, catch, finally) reports exactly those constructs of its kind whose body is a null statement or a block without any statement, comments not counting; for if statements the then part, for else the else part. The report is placed at the empty body, one for each. Non-empty bodies and other constructs are never reported."),
 ("S03", "Null-check rules flag exactly the broken, misplaced or redundant checks", ["basic", "redundant", "abstract"],
  "A condition a && b or a || b is reported once, and no other is. Broken: the left operand of && says that a variable is null, or that of || that it is not, and the right operand uses it. Misplaced: the right operand of && says that a variable is not null, or that of || that it is null, and the left operand uses it already. Redundant: the left operand of && says that a variable is not nil and the right operand, unless it starts with !, uses it. "
  "An operand says so when it is, without parentheses around it, a comparison by == or != of a plain variable with a null constant, the variable itself or the variable with a ! before it. Using it means, anywhere in the other operand, reaching a member through it with -> (the null rules, in C and C++) or sending a message to it (the nil rules, in Objective-C). It must be the same variable, not merely one of the same name."),
 ("S04", "Switch rules flag exactly the switch statements with the named defect", ["convention"],
  "Judged by its own labels only, a switch is reported once as missing a default (none, and not every value of an enumeration has a label), as having an unneeded default (although every value has one) and as having too few branches (fewer cases than the limit, 3 unless configured), and its default label as misplaced when a label follows it. A switch whose body is a block is reported once as missing a break when, for some label, nothing in the labelled statement and no later statement of the block before the next label, by itself or anywhere within a block, breaks, continues, returns or throws. No other switch is reported; a named label inside a switch is reported once for every switch around it."),
 ("S05", "Expression and redundancy rules flag exactly the named expressions", ["basic", "redundant", "convention"],
  "Reported once each, and nothing else: `a % 2 == 1` or `1 == a % 2` with plain literals; a condition of an if or ?: that the compiler can evaluate and that depends on no template parameter; a unary ! or ~ applied (parentheses aside) to itself, and any of ! ~ + - applied to any of these; the condition, being != or ! without parentheses, of a ?: or of an if with else; a condition of if, while, do or ?: that contains & | or ^ anywhere; parentheses around the condition of an if, a returned value or a variable's initialiser. "
  "Likewise a ?: whose two results are both truth literals, equal literals or the same variable; an if/else that returns opposite truth literals, or assigns them to the same variable written alike; a variable declared alone right before the return of its value that ends the block; in C++ an if without else testing a pointer whose body only deletes it, alone or followed by setting it to null."),
 ("S06", "Control-flow rules flag exactly the named statement patterns", ["basic", "convention", "redundant"],
  "Reported once each, and nothing else: an if without else whose only statement is an if without else (collapsible); in a block the first unlabelled statement straight after one that cannot be passed (a jump, throw or return, a block or case holding one, an if with one in both parts); a for loop with a condition and neither start nor step; every goto; the step of an inner for that counts the variable of the for directly around it; every return and every throw or NSException raise inside a finally, once for each finally around it; a break, continue or return that ends the block of a for, for-in, while or do loop. "
  "Likewise an if without else that covers more lines than the limit (15 unless configured) and ends the body of a for, while or do loop or stands right before the jump that ends its block; the last else of an if/else-if chain whose other parts all end in a return; and every plain assignment straight to a parameter of the function or method around it."),
 ("S07", "Unused rules flag exactly the never-used locals and parameters", ["unused"],
  "A named local variable outside a function template is reported once exactly when nothing uses or references it, not even in an unevaluated operand or a template, and its canonical type, without template arguments and the keywords before its name, is not one of the resource-holding names in RAII_DEFAULT_CLASSES (std::lock_guard and std::unique_lock unless configured) or RAII_CUSTOM_CLASSES, lists separated by commas, semicolons, blanks or tabs. "
  "A named parameter of a function or method with a body is reported once exactly when nothing uses or references it, it has no unused attribute, and the function is no template, no lambda or block, not virtual and not written inside a class, and the method is no IBAction and does not override one of the same kind (class or instance) of a superclass or of a protocol that its class or an extension of it adopts. Parameters that only name a part of a function type are never reported."),
 ("S08", "Class-design rules flag exactly the named declarations", ["design", "convention"],
  "In C++, a class with virtual functions (its own or inherited) is reported once, where it is defined, exactly when it has no virtual destructor; and for each such class every public base without a virtual or protected destructor is reported once for each way it is inherited, bases of bases being looked at through those without virtual functions only. Every declaration of a virtual method of which a parameter has a default argument is reported once, and every declaration, within the class or outside, of a private static data member or method. Other declarations never are."),
 ("S09", "Objective-C rules flag exactly the named constructs", ["cocoa", "migration", "convention"],
  "Reported once each, and nothing else: a class implementation that defines isEqual: and not hash; a method definition that overrides one annotated as base method and sends no message of its selector to super; a direct call of a function, or a message to a method, annotated as prohibited, naming the annotation's comment; within a class implementation, a message to a protected method when the receiver's class is known and the implementing class neither is nor inherits from the class that declares it (the receiver's class if a protocol does); and an implementation for each abstract method of its direct superclass that it lacks. "
  "Likewise a one-argument message to NSNumber whose argument is a plain literal or YES/NO, or a parenthesised expression, of the type the selector names, or an enumerator as int; stringWithUTF8String: of a char * that is called for or parenthesised; the creating messages of NSArray and NSDictionary that a literal replaces; the element access messages to receivers of the four container types; and each instance variable written on the left of an assignment in a method whose selector is neither its name without underscores, nor set and that name capitalised, nor starts with init."),
]
for (i, t, dirs, st) in G:
  p(i, t, st, ["programs", "configurations"], "every program the front end accepts and every configured threshold",
    "Tests run each rule on a few fixed snippets; the condition must hold for every shape of syntax tree.",
    [RUL+"rules/"+d for d in dirs], [("visit functions of the rules", RUL+"rules/"+dirs[0])], ["violations recorded by the rule"])
p("S10", "Every rule has a priority of 1, 2 or 3 and a stable name and category",
  "Every rule answers with a priority of one, two or three and with a fixed, non-empty name and category whatever the configuration or what was analysed before. Answers never change during the life of the rule.",
  ["histories", "configurations"], "every rule, at any time", "Tests check the answer once after construction.",
  [RUL+"rules"], [("rule metadata", RUL+"rules")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
