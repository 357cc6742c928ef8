from mk import mk
mk("recycle-middle", "C01", "--fixedPointRecycling on a game with several outer and several middle fixed-point iterations",
   "the recycled innermost fixed point of the previous middle iteration is too small, so realizable specifications are called unrealizable",
   [("src/extensionFixedPointRecycling.hpp", "BFFixedPoint nu0((firstMiddle && (!firstOutermost))?", "BFFixedPoint nu0((!firstOutermost)?")],
   '''
f = write("s.slugsin", """[INPUT]
a
[OUTPUT]
x
[SYS_TRANS]
x
[ENV_LIVENESS]
a'
[SYS_LIVENESS]
a
""")
if verdict(run("--fixedPointRecycling", f)) != verdict(run(f)):
    fail("recycling changes the verdict")
ok()
''')
mk("stutter-skip", "C02", "at least two liveness guarantees that mention current-state propositions, and a goal transition whose successor goal has a pre-state literal",
   "the stuttering avoidance skips guarantees that were not satisfied on the transition, so a goal is never visited",
   [("src/extensionExtractExplicitStrategy.hpp", "while (((nextLivenessGuarantee != current.second) || firstTry) && !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {",
     "while (((nextLivenessGuarantee != current.second) || firstTry) && !((livenessGuarantees[nextLivenessGuarantee] & (firstTry?newCombination:newCombination.ExistAbstract(varCubePre))).isFalse())) {")],
   '''
t = """[INPUT]
a
[OUTPUT]
x
[ENV_LIVENESS]
! x
[SYS_LIVENESS]
| a ! x
a
"""
r = run("--explicitStrategy", write("s.slugsin", t))
if not verdict(r):
    fail("verdict")
check_strategy(Spec(t), parse(r.stdout))
ok()
''')
mk("counter-order", "C06", "an unrealizable specification whose environment has at least two liveness assumptions and a counterstrategy that needs a long way to one of them",
   "strategy data of the innermost fixed point is only kept for its last iteration, so the counterstrategy may circle without satisfying the assumption",
   [("src/extensionCounterstrategy.hpp", """                        strategyDumpingData.push_back(boost::make_tuple(i,j,foundPaths));

                        // Update the inner-most fixed point with the result of applying the enforcable predecessor operator
                        mu0.update(foundPaths.ExistAbstract(varCubePostInput));
                    }
""","""                        BF reached = foundPaths.ExistAbstract(varCubePostInput);
                        if (mu0.getValue()==(mu0.getValue() | reached)) strategyDumpingData.push_back(boost::make_tuple(i,j,foundPaths));

                        // Update the inner-most fixed point with the result of applying the enforcable predecessor operator
                        mu0.update(reached);
                    }
""")],
   '''
t = """[INPUT]
a
[OUTPUT]
x
[SYS_TRANS]
| ! a x'
[ENV_LIVENESS]
& a x
[SYS_LIVENESS]
& a ! x
"""
r = run("--counterStrategy", write("s.slugsin", t))
if verdict(r):
    fail("verdict")
sp, nodes = Spec(t), parse(r.stdout)
if not nodes:
    fail("no counterstrategy")
for h in sp.sec["ENV_LIVENESS"]:
    a = {n: [m for m in v[2] if not sp.f(h, v[0], nodes[m][0])] for n, v in nodes.items()}
    if cyc(a):
        fail("a play of the counterstrategy violates the assumption %s" % h)
ok()
''')
