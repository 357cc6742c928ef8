from mk import mk
mk("append-output", "C03", "an output file that exists already, for instance from an earlier run",
   "the strategy is appended to the old contents of the output file, so the file is no presentation of the strategy (and no JSON)",
   [("src/extensionExtractExplicitStrategy.hpp", "std::ofstream of(outputFilename.c_str());", "std::ofstream of(outputFilename.c_str(),std::ios::app);")],
   '''
f = write("s.slugsin", "[INPUT]\\na\\n\\n[OUTPUT]\\nx\\n\\n[SYS_TRANS]\\n| ! a' x'\\n\\n[SYS_LIVENESS]\\n! x\\n\\n[ENV_LIVENESS]\\n! a\\n")
for js in ([], ["--jsonOutput"]):
    want = run("--explicitStrategy", *js, f).stdout
    for k in range(2):
        run("--explicitStrategy", *js, f, "out.txt")
        if open(os.path.join(TMP, "out.txt")).read() != want:
            fail("run %d: the file is different from what goes to stdout" % (k + 1))
ok()
''')
mk("group-weight", "C15", "a number with at least three bits, where positions do not depend on one of the lower slave bits but on a higher one",
   "higher bits of the number get the weight of a lower one, so positions are listed under a wrong value",
   [("src/extensionAnalyzeInitialPositions.hpp", "if (minterm[*it2]>0) value += multiplyer;\n                        multiplyer *= 2;",
     "if (minterm[*it2]==0) continue;\n                        if (minterm[*it2]>0) value += multiplyer;\n                        multiplyer *= 2;")],
   '''
f = write("s.slugsin", "[INPUT]\\na\\n\\n[OUTPUT]\\nx@0.0.7\\nx@1\\nx@2\\n\\n[SYS_TRANS]\\nx@2\\n")
out = run("--analyzeInitialPositions", f).stdout
sec = out.split("Some cubes of winning positions:")[1].split("Some cubes")[0]
lines = [l.strip() for l in sec.split("\\n") if l.strip()]
for l in lines:
    m = re.fullmatch(r"- x=(\\d+)", l)
    if not m or not int(m.group(1)) & 4:
        fail("%r is listed as winning, but the positions with x>=4 are" % l)
ok() if lines else fail("nothing listed")
''')
mk("bias-twice", "C40", "--biasForAction where the goal can be enforced, but only in more than two steps, while waiting for an assumption is possible, too",
   "longer ways to the goal are not preferred to waiting, so the goal may never be reached although the system can enforce it",
   [("src/extensionBiasForAction.hpp", "for (;!mu1b.isFixedPointReached();) {", "for (unsigned int round=0;(round<2) && !mu1b.isFixedPointReached();round++) {")],
   '''
f = write("s.slugsin", "[INPUT]\\na\\n\\n[OUTPUT]\\nx\\ny\\nz\\n\\n[ENV_TRANS]\\n| ! & a & ! z & ! y x ! a'\\n\\n[ENV_LIVENESS]\\n& ! a & ! z & ! y ! x\\n\\n"
          "[SYS_LIVENESS]\\n& ! a & ! z & ! y ! x\\n")
nodes = parse(run("--explicitStrategy", "--biasForAction", f).stdout)
away = {n: [t for t in s if any(nodes[t][0].values())] for n, (v, r, s) in nodes.items() if any(v.values())}
if not nodes or cyc(away):
    fail("the goal can be enforced from everywhere, but the strategy may avoid it: %s" % cyc(away))
ok()
''')
mk("forgetful-monitor", "C14", "an unrealizable specification that would become realizable if violations of safety guarantees were forgiven",
   "the monitor for failed safety guarantees forgets failures, so the report says that a non-strict implication makes the specification realizable",
   [("src/extensionAnalyzeSafetyLivenessInteraction.hpp", "((!overallSafetySys) | variables[varGuaFailPre])", "(!overallSafetySys)")],
   '''
f = write("s.slugsin", "[INPUT]\\na\\n\\n[OUTPUT]\\nx\\n\\n[SYS_TRANS]\\n| ! & ! a ! x 0\\n")
out = run("--analyzeSafetyLivenessInteraction", f).stdout
if "- and nothing changes in the robotics semantics" not in out:
    fail("a position in which the guarantees are violated for sure is called winning with non-strict implication: %s" % out[-400:])
ok()
''')
mk("abstract-start", "C21", "--computeAbstractWinningTrace where the trace has at least two rounds and the later rounds can be made concrete",
   "a position is only made more concrete if that can be enforced from the start in one step, instead of from the previous round",
   [("src/extensionAbstractWinningTraceGenerator.hpp", "if ((newPre >= candidatePre) && (candidatePost", "if ((newPre >= distances.back()) && (candidatePost")],
   '''
f = write("s.slugsin", "[INPUT]\\na\\nb\\n\\n[OUTPUT]\\nx\\ny\\n\\n[SYS_INIT]\\n! y\\n\\n[SYS_TRANS]\\n| ! & ! b & ! a & ! y ! x & y' ! x'\\n| ! & ! b & ! a & ! y x & ! y' ! x'\\n"
          "| ! & ! b & a & y ! x 0\\n")
out = run("--computeAbstractWinningTrace", f).stdout
if "Abstract countertrace" not in out:
    fail("no countertrace: %s" % out)
col = [[x.strip() for x in l.split("||")[1].split("|")][2] for l in out.split("\\n") if re.match(r"\\| [abxy] ", l)]
if col != ["X"] * 4:
    fail("the environment wins by the first move, but round 2 shows %s" % col)
ok()
''')
