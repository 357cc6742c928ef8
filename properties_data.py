"""The properties: statements for properties.jsonl, techniques and notes for MANIFEST.json (written by meta.py)."""
REF = ("Trusts the reference GR(1) solver of vlib/gr1.py (a direct fixed point over truth tables, itself cross-checked against a "
       "parity-game solver), the parsers of slugs' output formats and the sampled generator; no claim beyond the explored cases.")
STRATTEST = ("The examples compare at most a verdict or a fixed output on ten hand-written specifications; the quantifier ranges over "
             "all specifications, and a wrong fixed point or extraction step shows only on games with the right shape.")
E = "src/extension"
PROPS = []


def P(id, title, statement, quant, why, files, mech, observe, tech, note=REF, over=("inputs",)):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, observe=observe,
                      tech=tech, note=note, over=list(over)))


P("C01", "Realizability verdict is correct",
  "For every well-formed specification, slugs reports RESULT: Specification is realizable exactly if the system player wins the GR(1) "
  "game of the specification from the initial positions: for every initial input allowed by the environment some allowed initial output "
  "(default), or for all positions allowed by both initialization parts (--sysInitRoboticsSemantics). Options that only change how the "
  "fixed point is computed or what is extracted (--fixedPointRecycling, --biasForAction) do not change the verdict.",
  "all specifications over Boolean propositions, both initialization semantics, all verdict-preserving options",
  STRATTEST, ["src/gr1context.hpp", "src/synthesisAlgorithm.cpp", "src/synthesisContextBasics.cpp", E + "FixedPointRecycling.hpp",
              E + "RoboticsSemantics.hpp", E + "BiasForAction.hpp"],
  [("triply nested fixed point", "GR1Context::computeWinningPositions"), ("initial check", "GR1Context::checkRealizability")],
  ["RESULT line on stderr"], "random specifications, differential against an independent explicit-state GR(1) solver")

P("C02", "Explicit strategies win and answer every allowed input",
  "Whenever the specification is realizable, the strategy printed by --explicitStrategy has a start state for every admissible start, "
  "a successor for every next input that the safety assumptions allow in every state, takes only transitions that satisfy the safety "
  "guarantees, and every infinite play on which all liveness assumptions hold infinitely often satisfies every liveness guarantee "
  "infinitely often.",
  "all realizable specifications, both initialization semantics, with bias and fixed-point recycling", STRATTEST,
  [E + "ExtractExplicitStrategy.hpp", "src/synthesisAlgorithm.cpp"],
  [("strategy extraction from recorded sub-fixed-points", "XExtractExplicitStrategy::computeAndPrintExplicitStateStrategy")],
  ["strategy on stdout or in the output file"],
  "random specifications, the strategy graph is checked for safety, completeness and absence of losing fair cycles")

P("C03", "Strategy output formats and destinations agree",
  "For the same specification and options, the strategy printed as text and as JSON describes the same automaton, writing to a file "
  "gives the same bytes as writing to standard output, an unrealizable specification gives no strategy, and asking for a strategy does "
  "not change the verdict.",
  "all specifications x all explicit-strategy option combinations (6 algorithms, initialization semantics, recovery)",
  "No test compares the two formats; differences show only for particular strategies and algorithm combinations.",
  [E + "ExtractExplicitStrategy.hpp", E + "PermissiveExplicitStrategy.hpp", "src/main.cpp"],
  [("text and JSON printers", "XExtractExplicitStrategy::computeAndPrintExplicitStateStrategy")],
  ["stdout, output file, RESULT line"], "metamorphic comparison of text/JSON/stdout/file outputs on random specifications")

P("C04", "Recovery strategies also answer inputs that break assumptions",
  "With --simpleRecovery, every state of the printed strategy additionally has a successor for every next input that violates the "
  "safety assumptions whenever a safe move to a winning position exists for it, no such successor is unsafe or losing, and the "
  "behaviour under the assumptions is still winning.",
  "all realizable specifications with safety assumptions", STRATTEST,
  [E + "ExtractExplicitStrategy.hpp", "src/synthesisAlgorithm.cpp"],
  [("relaxed input restriction", "XExtractExplicitStrategy<T,oneStepRecovery,jsonOutput>")], ["strategy on stdout"],
  "random specifications, strategy graph compared with the moves the reference game offers outside the assumptions")

P("C05", "Symbolic strategies encode complete, winning strategies",
  "The relation written by --symbolicStrategy and --simpleSymbolicStrategy describes, for every goal and every winning position, a "
  "safe move for every allowed input (and with recovery for every answerable one), makes progress so that every play that satisfies "
  "the liveness assumptions satisfies the liveness guarantees, and names its variables so that it can be interpreted.",
  "all realizable specifications x 5 algorithms x both formats x recovery", STRATTEST,
  [E + "ExtractSymbolicStrategy.hpp", "src/BFAbstractionLibrary/BFCudd.cpp"],
  [("relation with goal counter and output selectors", "XExtractSymbolicStrategy::computeAndPrintSymbolicStrategy")],
  ["DDDMP file written to the output file"],
  "random specifications, the exported BDD is expanded by an independent DDDMP reader and checked as a strategy")

P("C06", "Counterstrategies win for the environment",
  "For every unrealizable specification --counterStrategy prints a strategy of the environment in which all moves satisfy the safety "
  "assumptions, every allowed answer of the system is covered, and every play either deadlocks the system or satisfies all liveness "
  "assumptions infinitely often while some liveness guarantee holds only finitely often; for realizable ones it prints none. The "
  "specification file is never modified.",
  "all specifications, both initialization semantics, stdout and file output", STRATTEST,
  [E + "Counterstrategy.hpp", E + "ExtractExplicitCounterstrategy.hpp", "src/main.cpp"],
  [("dual fixed point", "XCounterStrategy::checkRealizability"), ("extraction", "XCounterStrategy::computeAndPrintExplicitStateStrategy")],
  ["counterstrategy on stdout or in the output file"],
  "random specifications, counterstrategy graph checked against the reference game")

P("C07", "Permissive strategies are winning and contain the ordinary one",
  "Every way to resolve the choices of a strategy printed by --extractExplicitPermissiveStrategy satisfies the safety guarantees, "
  "answers every allowed input and wins; and every behaviour of the ordinary explicit strategy for the same options is possible in it.",
  "all realizable specifications x 4 algorithms x both initialization semantics", STRATTEST,
  [E + "PermissiveExplicitStrategy.hpp"],
  [("extraction without determinization", "XExtractExplicitPermissiveStrategy")], ["strategy on stdout"],
  "random specifications, all resolutions checked at once by cycle analysis, inclusion checked by simulation")

P("C08", "Cooperative strategies keep the assumptions satisfiable",
  "With --cooperativeGR1Strategy the printed strategy satisfies the specification, and from every one of its states the environment can "
  "still continue so that all liveness assumptions and guarantees hold forever; the verdict is realizable exactly if such a strategy "
  "exists.",
  "all specifications, both initialization semantics", STRATTEST,
  [E + "CooperativeGR1Strategy.hpp"], [("cooperative four-fold fixed point", "XCooperativeGR1Strategy::computeWinningPositions")],
  ["strategy on stdout, RESULT line"], "random specifications, verdict against a reference fixed point, strategy checked as a graph")

P("C09", "Two-dimensional cost strategies are correct and cost-optimal",
  "With --twoDimensionalCost the verdict is that of the specification, and all moves of the strategy satisfy the safety guarantees. For "
  "specifications without liveness assumptions the strategy has all required start states, wins, and from each of its states reaches "
  "the next goal with the least worst-case sum of action costs (when action costs count at all).",
  "all specifications x cost files with disjoint cost classes x weightings x both initialization semantics", STRATTEST,
  [E + "TwoDimensionalCost.hpp"], [("cost-ordered reachability", "XTwoDimensionalCost::computeCostOptimalStrategy")],
  ["strategy on stdout, RESULT line"],
  "random specifications and cost files, strategies judged against an independent min-max value iteration")

P("C18", "Fast-slow semantics (--IROSfastslow)",
  "For a specification in the fast-slow format the verdict and the strategies are those of the game in which the position after the "
  "fast outputs have changed, but the slow ones have not, must also be safe.",
  "all fast-slow specifications, with and without recovery, text and JSON", STRATTEST,
  [E + "IROSfastslow.hpp"], [("restriction to transitions with safe intermediate positions", "XIROSFS::init / computeWinningPositions")],
  ["strategy on stdout, RESULT line"], "random specifications, differential against the reference solver on the fast-slow game")

P("C40", "Bias for action pursues goals as directly as possible",
  "With --biasForAction, whenever the goal that a strategy state pursues can be enforced without waiting for an assumption, the strategy "
  "reaches it in the least worst-case number of steps.",
  "all realizable specifications", STRATTEST, [E + "BiasForAction.hpp"],
  [("alternative innermost fixed point order", "XBiasForAction::computeWinningPositions")], ["strategy on stdout"],
  "random specifications, worst-case path lengths of the strategy against reference attractor levels")

P("C10", "The input format means what the documentation says",
  "Every well-formed slugsin file, however its sections, comments, blank lines and white space are arranged, is read as the documented "
  "specification: sections are conjunctions of their lines, and the operators ! & | ^, constants, primed variables, memory buffers ($) "
  "and recalls (?) have their documented values. Every malformed file is rejected with exit code 1, an 'Error' message and no RESULT.",
  "all slugsin files (well-formed and damaged ones)",
  "The examples use a handful of layouts and no malformed file; formula trees, buffers and damage have unboundedly many shapes.",
  ["src/synthesisContextBasics.cpp", "src/gr1context.hpp"],
  [("section reader", "GR1Context::init"), ("Polish notation parser", "GR1Context::parseBooleanFormulaRecurse")],
  ["clauses printed by --computeCNFFormOfTheSpecification, exit code and stderr"],
  "grammar-based random files with mutations, differential against an independent reader and truth tables")

P("C12", "The exported CNF/DNF form describes the same specification",
  "--computeCNFFormOfTheSpecification lists all variables with distinct numbers, and the printed clauses are equivalent to the safety "
  "assumptions, safety guarantees and initial conditions; each printed liveness formula holds infinitely often on exactly the same plays "
  "as the original one.",
  "all specifications", "No test reads this output.", [E + "ComputeCNFFormOfTheSpecification.hpp"],
  [("CNF/DNF computation", "XComputeCNFFormOfTheSpecification::computeCNF")], ["clause lines on stdout"],
  "random specifications, truth-table equivalence and recurrence-language equivalence")

P("C13", "Weakened safety assumptions are weaker, sufficient and minimal",
  "The clauses printed by --computeWeakenedSafetyAssumptions follow from the original safety assumptions; if the specification is "
  "realizable, it is also realizable with the printed clauses instead of the assumptions, but not if one of them is left out as well, they "
  "mention no proposition without need, and no "
  "literal of a clause can be left out without changing the conjunction; "
  "for unrealizable specifications they are equivalent to the original assumptions.",
  "all specifications", "No test runs this analysis.", [E + "WeakenSafetyAssumptions.hpp"],
  [("literal-wise weakening", "XComputeWeakenedSafetyAssumptions::execute")], ["clause list on stdout"],
  "random specifications, implication and realizability decided by the reference game")

P("C14", "The safety/liveness interaction report is true",
  "Every row of the matrix printed by --analyzeSafetyLivenessInteraction states the realizability of the sub-specification in both "
  "initialization semantics, the remarks on non-strict implication are true, and the numbers of steps until a player can force a "
  "violation of the other's safety properties are the least possible.",
  "all specifications, all sixteen sub-specifications", "No test runs this analysis.", [E + "AnalyzeSafetyLivenessInteraction.hpp"],
  [("sub-specification loop", "XAnalyzeSafetyLivenessInteraction::execute")], ["report on stdout"],
  "random specifications, every line against the reference solver and attractor distances")

P("C15", "The initial-position analysis counts and describes positions correctly",
  "--analyzeInitialPositions (with or without --restrictToReachableStates) prints the exact numbers of winning positions, of those that "
  "satisfy the initialization assumptions and guarantees, and of the initial inputs that are allowed or force the system to lose; every "
  "listed cube contains only positions of the described kind, and TRUE and (none) are printed exactly if all or no positions are.",
  "all specifications, with number groups and variable limits", "No test runs this analysis.",
  [E + "AnalyzeInitialPositions.hpp", "src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp", "src/BFAbstractionLibrary/BFCudd.cpp"],
  [("counts", "XAnalyzeInitialPositions::execute"), ("cubes", "printLargePreCubes, BFMintermEnumerator")], ["report on stdout"],
  "random specifications, counts and cubes against the reference winning region")

P("C16", "The assumption analysis states what dropping an assumption does",
  "--analyzeAssumptions reports an assumption as crucially needed exactly if the specification is unrealizable without it, and otherwise "
  "as making more positions winning, redundant, making the goals listed easier to reach, or superfluous, exactly if the winning region "
  "shrinks, the other safety assumptions imply it, the distances to these goals grow, or nothing changes.",
  "all realizable specifications, all assumptions, with and without property names", "No test runs this analysis.",
  [E + "AnalyzeAssumptions.hpp"], [("reactive distances", "XAnalyzeAssumptions::computeReactiveDistancesAndWinningPositions")],
  ["remarks on stdout"], "random specifications, every remark against reference games without the assumption")

P("C17", "The interleaving analysis finds the outputs that can be set early",
  "The outputs listed by --analyzeInterleaving can be set before the next input is read without losing realizability, and the "
  "specification becomes unrealizable as soon as any other output is set early, too.",
  "all realizable specifications", "No test runs this analysis.", [E + "Interleave.hpp", "src/variableManager.cpp"],
  [("predecessor operator with early outputs", "XInterleave::computeWinningPositions"), ("greedy choice", "XInterleave::execute")],
  ["list on stdout"], "random specifications, the list is checked in a reference game with early outputs")

P("C22", "Non-deterministic motion: the verdict is that of the real game",
  "With --nonDeterministicMotion, slugs reports the specification as realizable exactly if the system wins the game in which the "
  "controller chooses the controller outputs and other outputs, and the environment chooses the next motion state among those that the "
  "robot abstraction allows, for every robot abstraction and region BDD that can be read; files that cannot be read are rejected.",
  "all specifications, robot abstractions, both initialization semantics", "No test runs this extension.",
  [E + "NondeterministicMotion.hpp", "src/BFAbstractionLibrary/BFCuddManager.cpp"],
  [("predecessor operator with motion", "XNonDeterministicMotion::computeWinningPositions"),
   ("BDD file reader", "BFBddManager::readBDDFromFile")], ["RESULT line, exit code"],
  "random specifications and DDDMP files, differential against a reference game with environment-resolved motion")

P("C23", "Incomplete information: the belief abstraction is sound and most permissive",
  "The formulas printed by --computeIncompleteInformationEstimator do not mention unobservable propositions; the estimator formula "
  "allows exactly the transitions that are right for every reachable unobservable value (with min_/max_ outputs as tight as possible), "
  "the assumption formula holds exactly on the reachable observable transitions, and the dead-end warnings and difference intervals are "
  "true.",
  "all domain specifications with observable, unobservable and controllable inputs", "No test runs this extension.",
  [E + "IncompleteInformationEstimatorSynthesis.hpp"],
  [("reachability and quantification", "XIncompleteInformationEstimatorSynthesis::execute")],
  ["formulas on stdout, warnings and difference analysis on stderr"],
  "random domains, the printed formulas are compared as truth tables with the abstraction computed on explicit sets")

P("C19", "The interactive shell plays a winning strategy and tells the truth",
  "In every session of --interactiveStrategy, CHECKTRANS classifies each transition correctly, the strategies it refers to are complete and "
  "winning for the player who wins the game, and every start, move and completion that the shell makes is allowed, has the forced values, "
  "follows the strategy of the current goal, and updates position, goals and the letters that say why a value is forced; what is "
  "impossible is reported as the documented error, and no command sequence blocks or crashes the shell.",
  "all specifications and all command sequences", "No test starts the shell; its state evolves over unboundedly many histories.",
  [E + "InteractiveStrategy.hpp", "src/tools.cpp"],
  [("positional strategies", "XInteractiveStrategy::execute"), ("choice of one valuation", "GR1Context::determinize")],
  ["answers on stdout"], "stateful: random command sequences against a model of the session and the reference game",
  over=("inputs", "histories"))

P("C20", "The interesting run is a legal run in which the goals are reached",
  "The run printed by --computeInterestingRunOfTheSystem starts in a winning initial position and takes only legal transitions between "
  "winning positions; the goal numbers and + signs state which goals its transitions satisfy; the environment reaches its goals as soon "
  "as it can force it, the system reaches every goal if the assumptions are satisfied again and again, and the run ends early only where "
  "the environment has no legal move.",
  "all specifications with a winning initial position", "No test runs this extension.",
  [E + "ComputeInterestingRunOfTheSystem.hpp", "src/tools.cpp"],
  [("run", "XComputeInterestingRunOfTheSystem::computeRun")], ["table on stdout"],
  "random specifications, invariants over the printed history, distances from the reference game")

P("C21", "Abstract winning traces show how a player wins in finite time",
  "--computeAbstractWinningTrace prints a countertrace or trace exactly if the environment or system can win in finite time from the "
  "start; it has the least possible number of rounds, starts in an allowed initial position, every column can be enforced from the "
  "column before, no undetermined value could be fixed, and the last input of a countertrace makes the system lose.",
  "all specifications", "No test runs this extension.", [E + "AbstractWinningTraceGenerator.hpp"],
  [("attractor and generalization", "XAbstractWinningTraceGenerator::computeAbstractStrategyTrace")], ["tables on stdout"],
  "random specifications, columns read back as sets of positions and checked with the reference predecessor operators")

P("C24", "The command line contract is kept for every option combination",
  "Every documented option combination is accepted, in any order and position of options, and gives the verdict and output format asked "
  "for; unknown options, impermissible combinations, missing, superfluous or unreadable files and outputs that cannot be opened or "
  "completely written end with exit code 1 and an Error message. slugs is deterministic, never changes its input files, and writes no "
  "other file in the user's directories than the output file, and this only if there is a strategy.",
  "all option combinations, argument orders, specifications and file faults",
  "The examples use six option combinations and only correct command lines.",
  ["src/main.cpp", "src/synthesisContextBasics.cpp", E + "ExtractExplicitStrategy.hpp", E + "ExtractSymbolicStrategy.hpp"],
  [("option table and error reporting", "main"), ("output files", "XExtractExplicitStrategy::execute")],
  ["exit code, stdout, stderr, all files in the working directory"],
  "random command lines and injected file faults, reference verdicts, directory snapshots, repeated runs",
  over=("inputs", "configurations", "fault_sequences"))

P("C25", "Results depend on the game only, not on how it is written or scaled",
  "Renaming propositions consistently, reordering sections and constraints, splitting conjunctions, rewriting formulas equivalently, "
  "adding comments and unused propositions, and permuting declarations do not change the verdict (nor, when the game and the order of "
  "propositions stay the same, the strategy or analysis result). More assumptions never make a realizable specification unrealizable, "
  "more guarantees or less control never make an unrealizable one realizable, and independent specifications combine as expected; "
  "verdicts and strategies for medium-sized specifications agree with the reference solver.",
  "all specifications, also with more propositions than an explicit reference can enumerate",
  "The examples are single fixed specifications.",
  ["src/synthesisContextBasics.cpp", "src/synthesisAlgorithm.cpp", "src/BFAbstractionLibrary/BFCudd.cpp",
   E + "ExtractExplicitStrategy.hpp"],
  [("reading", "GR1Context::init"), ("solving", "GR1Context::computeWinningPositions")], ["stdout and stderr of pairs of runs"],
  "metamorphic and differential testing of pairs of generated specifications")

P("C11", "No input makes slugs access invalid memory, crash or hang",
  "Whatever specification, cost file, option combination or standard input slugs is given - well-formed, damaged, or fault-injected - it "
  "never accesses invalid or uninitialized memory, never performs undefined arithmetic, never leaks BDD references, always ends, and ends "
  "with exit code 0, or with exit code 1 and an error message.",
  "all byte sequences as input files and standard input, all option combinations",
  "The tests run without sanitizers, and only on correct inputs.",
  ["src/main.cpp", "src/synthesisContextBasics.cpp", E + "InteractiveStrategy.hpp", E + "TwoDimensionalCost.hpp",
   E + "IncompleteInformationEstimatorSynthesis.hpp", "src/BFAbstractionLibrary/BFCudd.h"],
  [("reading of specifications", "GR1Context::init"), ("errors", "main")], ["exit code, stderr, sanitizer and valgrind reports"],
  "structure-aware fuzzing under AddressSanitizer, UndefinedBehaviorSanitizer and valgrind: the inputs of the other checks and mutations "
  "of them", note="BDD files of robot models are not mutated (the vendored loader does not validate them, see the known findings); time "
  "limit of 60 s of CPU time per run.", over=("inputs", "configurations"))

P("C26", "Structured specifications: formulas keep their meaning",
  "The structured specification compiler translates every formula over Boolean and integer variables - Boolean operators, comparisons, "
  "sums, constants, next-step variables and parentheses - into a slugs formula that is true for exactly the same valuations, for every "
  "value of every variable within its range, whatever the ranges and operand order.",
  "all formulas of the structured format, all variable ranges, all valuations", "The examples translate only a few hand-written files.",
  ["tools/StructuredSlugsParser/compiler.py", "tools/StructuredSlugsParser/Parser.py"],
  [("translation of formulas and adders", "tools/StructuredSlugsParser/compiler.py:parseSimpleFormula, recurseCalculationSubformula")],
  ["slugs formulas on stdout"], "random typed formulas, exhaustive comparison of the truth tables with a direct evaluator",
  note="Trusts the evaluator for structured formulas in props/c26.py and the slugs formula parser vlib/slugsin.py.", over=("programs",))

P("C27", "Structured specifications: the translation defines the same game",
  "For every structured specification the translated slugs specification has the declared propositions (integer variables as bits with the "
  "range in the name), restricts every integer variable to its range initially and in every step on the side of the player who owns it, "
  "contains the translation of every constraint in its section, and is realizable exactly if the structured game is; malformed "
  "specifications are refused with an error, and never translated silently.",
  "all structured specifications and command lines", "The examples translate only a few hand-written files.",
  ["tools/StructuredSlugsParser/compiler.py"], [("ranges and sections", "tools/StructuredSlugsParser/compiler.py:performConversion")],
  ["translated file on stdout, exit code"],
  "random structured specifications, the translation is parsed and compared section by section, and the games are solved", over=("programs",))

P("C28", "Strategy post-processing keeps states, transitions and integer values",
  "The integer decoder and the Graphviz converter accept every explicit strategy and counterstrategy text that slugs prints; the decoded "
  "text has the same states, ranks and transitions with every integer variable replaced by the value its bits encode, and the graph has "
  "one node per state with exactly its transitions and propositions.",
  "all explicit strategies and counterstrategies", "No test runs these scripts.",
  ["tools/explicitImplementationIntegerDecoder.py", "tools/explicitStrategyToGraphviz.py"],
  [("decoding", "tools/explicitImplementationIntegerDecoder.py"), ("graph", "tools/explicitStrategyToGraphviz.py")],
  ["stdout of the scripts"], "generated strategy texts (also from real runs), read back and compared with the generated automaton",
  over=("inputs", "programs"))

P("C29", "AIG circuits for safety specifications define the same game",
  "For every specification without liveness constraints, translateSafetySlugsSpecToSyntCompAIGFormat.py prints a well-formed AIGER circuit "
  "with one input per proposition, outputs marked as controllable, whose error output is true in a step exactly if the assumptions have "
  "held so far and a guarantee is violated in that step; so the circuit is safe to control exactly if the specification is realizable. "
  "Specifications with liveness constraints are refused.",
  "all safety specifications and all input sequences", "No test runs this script.",
  ["tools/translateSafetySlugsSpecToSyntCompAIGFormat.py"],
  [("encoding", "produceAIGFileFromSlugsFile"), ("formulas", "recurseMakeAIGEncodingOfBooleanFormula")], ["circuit on stdout"],
  "random safety specifications; the circuit is compared with the specification on the complete reachable product, its game with slugs")

DD = "lib/cudd-3.0.0/cudd"
P("C32", "BDD operations and minimization return functions that meet their contracts",
  "For all Boolean functions, operation sequences, cache and table sizes, and reorderings and garbage collections in between: the Boolean "
  "operations of the decision diagram package return exactly the function they are defined to return, and the minimization, approximation, "
  "decomposition, interpolation and prime expansion operations return a function within their documented bounds (care set, side of the "
  "approximation, factors whose conjunction is the function, primes). Equal functions are represented by the same node, other functions "
  "stay unchanged, and after releasing all functions no node stays referenced.",
  "all functions and operation sequences", "The existing tests run a few fixed circuits.",
  [DD + "/cuddBddIte.c", DD + "/cuddGenCof.c", DD + "/cuddApprox.c", DD + "/cuddSubsetHB.c", DD + "/cuddDecomp.c", DD + "/cuddClip.c"],
  [("operations", DD + "/cuddBddIte.c"), ("unique table", DD + "/cuddTable.c"), ("computed table", DD + "/cuddCache.c")],
  ["resulting functions as truth tables", "references left over", "internal consistency checks"],
  "random operation sequences on a register machine against truth tables, with shrinking", over=("histories", "inputs"))

P("C33", "Quantification, cofactors, composition, permutation and relations are exact",
  "For all functions, variable sets and substitutions: existential and universal quantification, and-exists, xor-exists, Boolean "
  "difference, cofactors, composition, simultaneous vector composition, permutation, variable swapping, equation solving, compatible "
  "projection, and the comparison relations between variable vectors (greater, equal, inequality, disequality, interval, distance "
  "comparison) return exactly the defined function, also with automatic reordering, tiny caches and garbage collections in between.",
  "all functions and operation sequences", "The existing tests run a few fixed circuits.",
  [DD + "/cuddBddAbs.c", DD + "/cuddAndAbs.c", DD + "/cuddCompose.c", DD + "/cuddPriority.c", DD + "/cuddSolve.c", DD + "/cuddCof.c"],
  [("quantification", DD + "/cuddBddAbs.c"), ("composition", DD + "/cuddCompose.c"), ("relations", DD + "/cuddPriority.c")],
  ["resulting functions as truth tables", "references left over"],
  "random operation sequences on a register machine against truth tables, with shrinking", over=("histories", "inputs"))

P("C34", "Counting, enumeration, selection and classification of BDDs are right",
  "For all functions: supports, minterm and path counts, densities and correlations have the defined values; enumerated cubes are disjoint "
  "and cover the function exactly, enumerated primes are primes and cover it; selected cubes, minterms, essential literals, two-literal "
  "clauses, largest cubes, shortest paths and closest cubes lie in the function and are optimal; Hamming distances, unateness and symmetry "
  "answers are right, also with automatic reordering, tiny caches and garbage collections in between.",
  "all functions and operation sequences", "The existing tests run a few fixed circuits.",
  [DD + "/cuddUtil.c", DD + "/cuddSat.c", DD + "/cuddEssent.c", DD + "/cuddSign.c", "lib/cudd-3.0.0/epd/epd.c"],
  [("counting and enumeration", DD + "/cuddUtil.c"), ("paths", DD + "/cuddSat.c"), ("essential literals", DD + "/cuddEssent.c")],
  ["counts", "enumerated cubes", "selected cubes"],
  "random operation sequences on a register machine against truth tables, with shrinking", over=("histories", "inputs"))

P("C38", "Operations on functions with real values (ADDs) are exact",
  "For all real-valued functions over Boolean variables: pointwise arithmetic, comparisons, minima and maxima, if-then-else, rounding, "
  "sums, products and disjunctions over variables, composition, permutation, cofactors, constraining, matrix products, residues, Walsh and "
  "Hamming functions, thresholds and conversions to and from BDDs return exactly the defined values, also with automatic reordering, tiny "
  "caches and garbage collections in between; no node stays referenced at the end.",
  "all functions and operation sequences", "The existing tests run a few fixed circuits.",
  [DD + "/cuddAddApply.c", DD + "/cuddAddIte.c", DD + "/cuddAddAbs.c", DD + "/cuddBridge.c", DD + "/cuddMatMult.c", DD + "/cuddAddWalsh.c"],
  [("arithmetic", DD + "/cuddAddApply.c"), ("matrices", DD + "/cuddMatMult.c"), ("conversion", DD + "/cuddBridge.c")],
  ["values of the resulting functions", "references left over"],
  "random operation sequences on a register machine against value tables, with shrinking", over=("histories", "inputs"))

P("C39", "Operations on families of sets (ZDDs) are exact",
  "For all families of sets over a finite universe: union, intersection, difference, if-then-else, subfamilies by element, element change, "
  "complement, products, quotients (algebraic and weak), element counting, path enumeration, support, irredundant sums of products with their "
  "covers, and conversions from and to BDDs return exactly the defined families, also with automatic reordering of ZDDs and BDDs, tiny "
  "caches and garbage collections in between; no node stays referenced at the end.",
  "all families and operation sequences", "The existing tests run one fixed circuit.",
  [DD + "/cuddZddSetop.c", DD + "/cuddZddFuncs.c", DD + "/cuddZddIsop.c", DD + "/cuddZddReord.c", DD + "/cuddZddPort.c", DD + "/cuddZddUtil.c"],
  [("set operations", DD + "/cuddZddSetop.c"), ("products and quotients", DD + "/cuddZddFuncs.c"), ("covers", DD + "/cuddZddIsop.c")],
  ["families of sets returned", "counts, paths, covers", "references left over"],
  "random operation sequences on a register machine against sets of sets, with shrinking", over=("histories", "inputs"))

P("C30", "Realizability searches, unrealizable cores and stuck-at reports are true",
  "For every monotone or antitone script with one or more integer parameters, the search scripts report exactly the best parameters for "
  "which the script reports realizability (with one parameter, after logarithmically many calls, the last one with that value; with several "
  "parameters exactly the Pareto front), never leave the stated ranges, and end with an error if the script fails. The core that "
  "findMinimalUnrealizableCore.py writes for an unrealizable specification is unrealizable, consists of its lines, and becomes realizable "
  "if any of its safety or liveness guarantees is left out. analyzeStuckAtConstant.py names exactly those values of every output (of a "
  "realizable specification) or input (of an unrealizable one) that can be fixed without changing realizability.",
  "all monotone oracles and all specifications", "No test runs these scripts.",
  ["tools/binaryRealizabilitySearch.py", "tools/multiDimensionalRealizabilitySearch.py", "tools/findMinimalUnrealizableCore.py",
   "tools/analyzeStuckAtConstant.py"],
  [("search", "runSearch"), ("core", "findMinimalCore"), ("stuck-at", "analyzeStuckAtConstant")],
  ["scripts' output", "calls of the wrapped script", "core file"],
  "random oracles and specifications against a reference computation; metamorphic removal of guarantees")

P("C31", "Specifications of LTLMop and RATSY keep their meaning",
  "For every LTLMop (SMV and LTL) or RATSY specification within the supported fragment - initial, safety and liveness properties of both "
  "players, in all spellings of the operators - the translators declare the same inputs and outputs in order and print sections with the "
  "same meaning as the properties; properties outside the fragment are refused with a non-zero exit status.",
  "all specifications in these formats", "No test runs these scripts.",
  ["tools/translateFromLTLMopLTLFormatToSlugsFormat.py", "tools/translateFromRatsyFormatToSlugsFormat.py", "tools/parser.py"],
  [("parsing", "tools/grammar.wi"), ("classification", "buildPropertySet"), ("formulas", "parseSimpleFormula")], ["translated specification"],
  "random specifications printed in random spellings; section-wise equivalence on all valuations")

BFL = "src/BFAbstractionLibrary"
P("C41", "The Boolean function layer preserves functions, references and files",
  "Boolean function objects behave as values: for every sequence of constructions, copies, moves, assignments, destructions, operators, "
  "comparisons, quantifications, variable swaps, care-set minimisations and conjunctions or disjunctions of lists - in several managers, "
  "with reordering and garbage collection at any time - every object keeps denoting exactly the defined function, equal functions compare "
  "equal, counts over a cube are exact, no node stays referenced once the objects are gone. A function written to a file and read back over "
  "any list of variables is the same function renamed; missing, foreign and too-large files are refused. Dumped graphs are the reduced "
  "diagram in the requested order, or an exception if variables are missing or doubled. The minterm enumerator lists cubes inside the "
  "function that meet the care set, each one with the fewest literals among those not fixing all variables of an earlier one, and ends "
  "exactly when none is left.",
  "all histories of operations on function objects", "No existing test covers this layer except through slugs on ten examples.",
  [BFL + "/BFCudd.h", BFL + "/BFCudd.cpp", BFL + "/BFCuddInlines.h", BFL + "/BFCuddManager.cpp", BFL + "/BFCuddVarCube.h",
   BFL + "/BFCuddVarVector.h", BFL + "/BFCuddMintermEnumerator.cpp", BFL + "/bddDump.cpp"],
  [("value semantics", "BFBdd::operator="), ("counting", "recurse_getNofSatisfyingAssignments"), ("files", "BFBddManager::readBDDFromFile"),
   ("enumeration", "BFMintermEnumerator::getNextMinterm"), ("graphs", "BF_newDumpDot")],
  ["functions as truth tables", "exceptions", "references left over", "files"],
  "random operation sequences on function objects against truth tables, with shrinking", over=("histories", "inputs"))

P("C37", "Minterm counts and the package's long numbers are exact",
  "The arbitrary precision integers with which the decision diagram package counts (addition, subtraction, division by a digit, shift, powers "
  "of two, comparison of numbers and of ratios, conversion to hexadecimal, decimal and rounded exponential text) equal exact integers, the "
  "printed numbers of minterms and densities of a function over any number of variables are right, and the extended range floating "
  "point numbers (conversion, the four operations in all their forms, powers of two, decimal text) deviate from exact rational arithmetic "
  "by no more than rounding, for every exponent, including zeros, infinities and undefined values.",
  "all numbers, numbers of digits, exponents and functions", "No existing test touches these functions.",
  [DD + "/cuddApa.c", "lib/cudd-3.0.0/epd/epd.c"],
  [("integers", DD + "/cuddApa.c"), ("extended numbers", "lib/cudd-3.0.0/epd/epd.c")],
  ["results of the operations", "printed numbers"],
  "random operands with special digits and exponents against exact integers and fractions, with shrinking", over=("inputs",))

P("C36", "Variable reordering keeps functions and groups and finds what it promises",
  "After every reordering, by any of the methods (random, random pivot, sifting, symmetric and group sifting, windows, annealing, genetic, "
  "exact, each with or without convergence) or to a given order, every function is unchanged and stored as its reduced diagram for the "
  "new order; variables of a group stay adjacent, those of a fixed group keep their order; without groups no method but symmetric sifting "
  "makes the functions larger, the exact method reaches the least size over all orders, and window permutation leaves no window of its "
  "width that a permutation would improve; reordering always ends, and no node stays "
  "referenced at the end.",
  "all functions, groups and histories of reorderings", "The existing tests reorder a few fixed circuits.",
  [DD + "/cuddReorder.c", DD + "/cuddSymmetry.c", DD + "/cuddGroup.c", DD + "/cuddWindow.c", DD + "/cuddAnneal.c", DD + "/cuddGenetic.c",
   DD + "/cuddExact.c", "lib/cudd-3.0.0/mtr/mtrGroup.c"],
  [("sifting", DD + "/cuddReorder.c"), ("groups", DD + "/cuddGroup.c"), ("optimum", DD + "/cuddExact.c")],
  ["functions as truth tables", "variable order", "sizes", "references left over"],
  "random functions, groups and reorderings against truth tables and brute-force minima, with shrinking", over=("histories", "inputs"))

P("C35", "Exported decision diagrams mean the stored functions and can be read back",
  "A DDDMP file (text or binary, one or several roots, with every kind of variable information) has a correct header and one line per "
  "node of the shared reduced diagram, and its roots denote the stored functions; loading it (here or in another manager, matching "
  "variables by number, level, auxiliary number, name or a given renaming, roots by position or name, after reordering, or converted "
  "between text and binary) gives the same functions. The clauses of a CNF file, in all three styles, project to the function. BLIF, "
  "prefix, SMV, DDcal, dot and daVinci files, factored forms, minterm lists and covers denote the function. Headers are read "
  "as stored. Files that cannot be opened, or are empty, are reported as failures. Nothing else changes.",
  "all functions, sets of roots, options and histories of operations, with reordering at any time",
  "The existing tests load and store a handful of fixed files.",
  ["lib/cudd-3.0.0/dddmp/dddmp%s.c" % x for x in ("Load", "StoreBdd", "StoreAdd", "StoreCnf", "StoreMisc", "NodeBdd", "NodeAdd", "NodeCnf", "Binary", "Convert", "Util")]
  + [DD + "/cuddExport.c", DD + "/cuddUtil.c"],
  [("storing", "lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c"), ("loading", "lib/cudd-3.0.0/dddmp/dddmpLoad.c"), ("CNF", "lib/cudd-3.0.0/dddmp/dddmpStoreCnf.c"),
   ("other formats", DD + "/cuddExport.c")],
  ["files written", "functions as truth tables", "references left over"],
  "random functions and histories, files read by independent parsers and compared with truth tables, with shrinking", over=("histories", "inputs"))

P("C42", "Decision diagram operations neither access invalid memory nor lose any",
  "For every sequence of operations on Boolean functions, real-valued functions and families of sets - including counting, enumeration, "
  "reordering by any method, garbage collection, import, export and conversion of files (also ones that cannot be opened), and the objects of "
  "the wrapper layer - no memory outside of live allocated blocks is accessed, nothing is accessed through misaligned or null pointers, nothing "
  "is released twice, and once the managers are released, no block that was allocated in between remains.",
  "all sequences of operations", "Tests compare printed results; they run without memory checking.",
  [DD + "/cuddTable.c", DD + "/cuddUtil.c", DD + "/cuddExport.c", "lib/cudd-3.0.0/dddmp/dddmpLoad.c", "src/BFAbstractionLibrary/BFCuddManager.cpp"],
  [("unique table", DD + "/cuddTable.c"), ("loading", "lib/cudd-3.0.0/dddmp/dddmpLoad.c")],
  ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "number of live blocks"],
  "random operation sequences under AddressSanitizer with counted allocations, with shrinking", over=("histories", "inputs"))

P("C43", "NuSMV instances are true exactly if the strategies are correct",
  "For every realizable specification over Boolean propositions (without exclusive or and without sharing of subformulas) and every finite-state "
  "controller in the format in which slugs prints explicit strategies - printed by slugs or with other output values or other successors - that "
  "answers all allowed inputs, the NuSMV module written by makeNuSMVInstanceToTestAutomatonFileAgainstSlugsSpecification.py is well-formed "
  "(declared variables, values in range, complete case lists) and has one LTLSPEC per safety guarantee and per liveness guarantee, in this order. "
  "The one for a safety guarantee is true exactly if no play that starts in a state that satisfies the initial conditions and along which the "
  "safety assumptions hold has a step that violates the guarantee; the one for a liveness guarantee exactly if the guarantee is satisfied "
  "infinitely often in all such infinite plays along which all liveness assumptions are satisfied infinitely often.",
  "all specifications and controllers", "No test runs this script.",
  ["tools/makeNuSMVInstanceToTestAutomatonFileAgainstSlugsSpecification.py"],
  [("translation of formulas", "slugsToLTL"), ("next state", "next(state)")],
  ["the NuSMV file"],
  "random specifications and (mutated) strategies; the file is parsed and model-checked explicitly, compared with a direct evaluation of the strategy")
