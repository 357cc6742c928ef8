from mk import mk
mk("symbolic-cases", "C05", "a symbolic strategy for a game in which the winning moves of a position come from different ranks for different inputs",
   "the symbolic strategy has no move for some input that the environment may choose",
   [("src/extensionExtractSymbolicStrategy.hpp", "                    casesCovered |= newCases;",
     "                    casesCovered |= newCases.ExistAbstract(varCubePostInput);"), ("src/extensionExtractSymbolicStrategy.hpp","    using T::varCubePostOutput;","    using T::varCubePostOutput;\n    using T::varCubePostInput;")],
   '''
import itertools
def read(path):
    L = open(path).read().split("\\n")
    h = {l.split()[0]: l.split()[1:] for l in L if l.startswith(".") and l.split()}
    supp, ids = h[".orderedvarnames"] if ".orderedvarnames" in h else None, [int(x) for x in h[".ids"]]
    names = {}
    for l in L:
        m = re.match(r"#\\t(\\d+): (.*)$", l)
        if m:
            names[int(m.group(1))] = m.group(2)
    nodes = {}
    i, j = L.index(".nodes"), L.index(".end")
    for l in L[i + 1:j]:
        t = l.split()
        nodes[int(t[0])] = t[1:]
    root = int(h[".rootids"][0])
    def ev(n, val):
        neg = n < 0
        t = nodes[abs(n)]
        if t[-2] == "0" and t[-1] == "0":
            return (not neg) == (t[0] in ("1", "T1") or t[1] in ("1", "T"))
        b = ev(int(t[-2]), val) if val[int(t[-3])] else ev(int(t[-1]), val)
        return b != neg
    return ids, names, lambda val: ev(root, {k: val[v] for k, v in enumerate(ids)})
t = """[INPUT]
a
[OUTPUT]
x
[ENV_TRANS]
| ! & a x ! a'
[SYS_LIVENESS]
& ! a ! x
"""
sp = Spec(t)
out = os.path.join(TMP, "o.bdd")
if not verdict(run("--symbolicStrategy", write("s.slugsin", t), out)):
    fail("verdict")
ids, names, f = read(out)
num = {v: k for k, v in names.items()}
allv = sorted(names)
for c in itertools.product([0, 1], repeat=3):
    pre, post = {"a": c[0], "x": c[1]}, {"a": c[2]}
    if not sp.all("ENV_TRANS", pre, post):
        continue
    val = dict.fromkeys(allv, 0)
    val.update({num["a"]: c[0], num["x"]: c[1], num["a'"]: c[2]})
    if not any(f(dict(list(val.items()) + [(num["x'"], v)])) for v in (0, 1)):
        fail("no move for input %s in %s" % (post, pre))
ok()
''')
mk("permissive-inputs", "C07", "a permissive strategy for a game in which inputs that the safety assumptions exclude have no answer in some position",
   "positions are not recognized as handled when the assumptions exclude some input, so moves of higher ranks are added and plays may avoid the goal",
   [("src/extensionPermissiveExplicitStrategy.hpp", "statesCovered = ((!safetyEnv) | stateInputsCovered).UnivAbstract(varCubePostInput);",
     "statesCovered = stateInputsCovered.UnivAbstract(varCubePostInput);")],
   '''
t = """[INPUT]
a
b
[OUTPUT]
x
y
[ENV_TRANS]
| ! & ! b & a & y x & ! b' ! a'
| ! & b & a & y ! x & ! b' ! a'
[SYS_TRANS]
| ! & ! b & ! a & ! y x | & & ! b' ! a' & ! y' ! x' & ! & ! b' ! a' & ! y' x'
| ! & ! b & ! a & y ! x & ! y' ! x'
[ENV_LIVENESS]
| & a a & ! b & ! a & ! y ! x
[SYS_LIVENESS]
& ! b & ! a & ! y ! x
"""
sp = Spec(t)
r = run("--extractExplicitPermissiveStrategy", write("s.slugsin", t))
if not verdict(r):
    fail("verdict")
L = [l.strip() for l in r.stdout.split("\\n")]
nodes = {}
cur = None
for l in L:
    m = re.match(r"State (\\d+) with rank (\\d+)", l)
    if m:
        cur = int(m.group(1))
        nodes[cur] = [None, []]
    elif cur is not None and ":" in l and nodes[cur][0] is None:
        nodes[cur][0] = {p.strip().split(":")[0]: int(p.strip().split(":")[1]) for p in l.split(",")}
    elif cur is not None and l.isdigit():
        nodes[cur][1].append(int(l))
if not nodes:
    fail("no strategy")
g, h = sp.sec["SYS_LIVENESS"][0], sp.sec["ENV_LIVENESS"][0]
adj = {n: [m for m in v[1] if not sp.f(g, v[0], nodes[m][0])] for n, v in nodes.items()}
for es in cyc(adj):
    if any(sp.f(h, nodes[p][0], nodes[q][0]) for p, q in es):
        fail("a play of the permissive strategy satisfies the assumption but avoids the goal forever")
ok()
''')
mk("falsify-deadend", "C14", "a specification without liveness in which the environment can be driven into a deadlock from which the system has no safe move either",
   "the number of steps in which the system can falsify the safety assumptions is wrong when the last step itself violates the guarantees",
   [("src/extensionAnalyzeSafetyLivenessInteraction.hpp", "winningPositions |= (((safetySys & winningPositions.SwapVariables(varVectorPre,varVectorPost)) | (!safetyEnv)))",
     "winningPositions |= ((safetySys & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | (!safetyEnv))))")],
   '''
t = """[INPUT]
a
b
[ENV_INIT]
b
[ENV_TRANS]
! b
[SYS_TRANS]
a
[OUTPUT]
"""
r = run("--analyzeSafetyLivenessInteraction", write("s.slugsin", t))
if "the system can falsify the environment's specification within 1 steps" not in r.stdout:
    fail(r.stdout[-200:])
ok()
''')
mk("interleave-liveness", "C17", "an interleaving analysis in which a liveness assumption decides realizability once an output is set early",
   "outputs that are set early are quantified together with the later ones in the enforceable predecessor, so too many outputs are reported",
   [("src/extensionInterleave.hpp", ".ExistAbstract(varCubePostOutputA).UnivAbstract(varCubePostInput).ExistAbstract(varCubePostOutputB));",
     ".ExistAbstract(mu1.getValue().isFalse()?(const BFVarCube&)varCubePostOutputA:(const BFVarCube&)varCubePostOutput).UnivAbstract(varCubePostInput).ExistAbstract(varCubePostOutputB));")],
   '''
t = """[INPUT]
a
[OUTPUT]
x
[SYS_TRANS]
| a ^ a' x'
"""
r = run("--analyzeInterleaving", write("s.slugsin", t))
if "becomes unrealizable when some output variable has to be set before" not in r.stdout:
    fail(r.stdout[-300:])
ok()
''')
