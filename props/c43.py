"""C43: the NuSMV instances for strategies are satisfied exactly if the strategies satisfy their specifications."""
from vlib import pbt, gr1, slugs, strat, jython, smv
from vlib.pbt import Violation

SCRIPT = "makeNuSMVInstanceToTestAutomatonFileAgainstSlugsSpecification.py"
SECS = gr1.SECTIONS


def plain(f):
    """without exclusive or, which the script does not know"""
    t = f[0]
    if t == "^":
        a, b = plain(f[1]), plain(f[2])
        return ("|", ("&", a, ("!", b)), ("&", ("!", a), b))
    if t == "!":
        return ("!", plain(f[1]))
    if t in "&|":
        return (t, plain(f[1]), plain(f[2]))
    return f


def value(f, pre, post):
    t = f[0]
    if t == "v":
        return bool((post if f[2] else pre)[f[1]])
    if t in "01":
        return t == "1"
    if t == "!":
        return not value(f[1], pre, post)
    if t == "&":
        return value(f[1], pre, post) and value(f[2], pre, post)
    return value(f[1], pre, post) or value(f[2], pre, post)


class Case:
    pass


class P(pbt.Prop):
    id = "C43"
    variants = ["slugs"]
    quick_cases = 2400
    thorough_cases = 40000
    rule = ("strategies of slugs for random specifications, most of them changed afterwards (output values, targets of edges with the same "
            "inputs); the generated module is parsed and every LTLSPEC is checked on all its paths with a tableau; the verdicts are compared "
            "with the steps and fair cycles of the automaton; non-trivial: a specification is expected to be violated, or there are both "
            "safety and liveness guarantees and two or more states")
    assumptions = ["Jython runs the Python 2 script as Python 2 does", "strategies that leave out an allowed input are not judged"]

    def setup(self, ctx):
        self.tools = jython.Tools(ctx)

    def teardown(self, ctx):
        self.tools.stop()

    def gen(self, tc):
        c = Case()
        sp = gr1.gen_spec(tc, max_in=2, max_out=2, max_sec=4, max_live=3, graphs=tc.bool(0.6))
        if not sp.k:
            sp.outputs = ["o1"]
        for s in SECS:
            setattr(sp, s, [plain(f) for f in getattr(sp, s)])
        c.spec = sp
        c.order = ["INPUT", "OUTPUT"] + tc.shuffle(SECS) if tc.bool(0.3) else ["INPUT", "OUTPUT"] + SECS
        c.comment = tc.bool(0.3)
        c.empty = tc.bool(0.5)
        c.changes = [(tc.pick(["flip", "edge", "edge"]), tc.choice(64), tc.choice(64), tc.choice(64))
                     for _ in range(tc.weighted([(2, 0), (4, 1), (3, 2), (2, 4)]))]
        return c

    def text(self, c, spec=None):
        spec = spec or c.spec
        out = []
        for s in c.order:
            ls = spec.inputs if s == "INPUT" else spec.outputs if s == "OUTPUT" else [gr1.to_slugs(f) for f in getattr(spec, s)]
            if ls or c.empty:
                out += ["[%s]" % s] + (["# comment"] if c.comment else []) + list(ls) + [""]
        return "\n".join(out) + "\n"

    def render(self, c):
        return "%s\nchanges: %r" % (self.text(c), c.changes)

    # ------------------------------------------------------------------ reference
    def expected(self, sp, lab, succ):
        """verdicts for SYS_TRANS and SYS_LIVENESS; None if an allowed input has no successor"""
        roots = [n for n in lab if all(value(f, lab[n], lab[n]) for f in sp.ENV_INIT + sp.SYS_INIT)]
        seen, todo, adj = set(roots), list(roots), {}
        while todo:
            n = todo.pop()
            adj[n] = []
            for i in range(1 << sp.ni):
                post = {x: i >> b & 1 for b, x in enumerate(sp.inputs)}
                m = [x for x in succ[n] if all(lab[x][y] == post[y] for y in sp.inputs)]
                if not all(value(f, lab[n], post) for f in sp.ENV_TRANS):
                    continue
                if not m:
                    return None
                adj[n].append(m[0])
                if m[0] not in seen:
                    seen.add(m[0])
                    todo.append(m[0])
        r = [all(value(f, lab[n], lab[m]) for n in adj for m in adj[n]) for f in sp.SYS_TRANS]
        at = lambda f: lambda n, m: value(f, lab[n], lab[m])
        return r + [strat.fair_cycle(adj, None, [at(a) for a in sp.ENV_LIVENESS], at(f)) is None for f in sp.SYS_LIVENESS]

    def check(self, c, ctx):
        nt, labels = self.run(c, ctx)
        return {"key": self.render(c), "nontrivial": nt, "labels": labels}

    def run(self, c, ctx):
        sp = c.spec
        f = slugs.write(ctx, "nu.slugsin", self.text(c))
        r = slugs.run(ctx, ["--explicitStrategy", f])
        for cut in (1, 2, 4):
            if r.verdict or not sp.SYS_TRANS + sp.SYS_LIVENESS:
                break
            sp = sp.copy()
            sp.SYS_TRANS, sp.SYS_LIVENESS = sp.SYS_TRANS[:-cut], sp.SYS_LIVENESS[:max(1, 4 - cut)]
            f = slugs.write(ctx, "nu.slugsin", self.text(c, sp))
            r = slugs.run(ctx, ["--explicitStrategy", f])
        if not r.verdict:
            return False, ["unrealizable"]
        st = slugs.parse_text_strategy(r.out)
        if not st.nodes:
            return False, ["no state"]
        n = len(st.nodes)
        if sorted(st.nodes) != list(range(n)):
            raise Violation("states %r" % sorted(st.nodes))
        lab = {x: dict(zip(st.variables, v[0])) for x, v in st.nodes.items()}
        succ = {x: list(v[2]) for x, v in st.nodes.items()}
        if n > 14:
            return False, ["large"]
        for kind, a, b, d in c.changes:
            x = a % n
            if kind == "flip" and sp.outputs:
                lab[x][sp.outputs[b % sp.no]] ^= 1
            elif kind == "edge" and succ[x]:
                j = b % len(succ[x])
                same = [y for y in lab if all(lab[y][z] == lab[succ[x][j]][z] for z in sp.inputs)]
                succ[x][j] = same[d % len(same)]
        text = "".join("State %d with rank %d -> <%s>\n\tWith successors : %s\n" %
                       (x, st.nodes[x][1], ", ".join("%s:%d" % (z, lab[x][z]) for z in st.variables), ", ".join(map(str, succ[x])))
                       for x in range(n))
        if not c.changes and text.strip() != r.out.strip():
            raise pbt.Inconclusive("the strategy is printed differently")
        want = self.expected(sp, lab, succ)
        if want is None:
            if not c.changes:
                raise Violation("an allowed input has no successor in the strategy of slugs")
            return False, ["incomplete"]
        g = slugs.write(ctx, "nu.aut", text)
        o = slugs.write(ctx, "nu.smv", "")
        q = self.tools.run(SCRIPT, [f, g, o])
        if q.rc != 0:
            raise Violation("the script fails: %s" % q.err[-600:])
        with open(o) as h:
            model = smv.Model(h.read())
        for v in sp.inputs + sp.outputs:
            if ("v_" + v) not in model.vars and ("v_" + v) not in model.ivars:
                raise Violation("no variable v_%s" % v)
        model.prepare()
        if len(model.specs) != len(want):
            raise Violation("%d specifications for %d guarantees" % (len(model.specs), len(want)))
        names = ["SYS_TRANS %d" % (i + 1) for i in range(len(sp.SYS_TRANS))] + ["SYS_LIVENESS %d" % (i + 1) for i in range(len(sp.SYS_LIVENESS))]
        for name, s, w in zip(names, model.specs, want):
            got = model.holds(s)
            if got is None:
                raise pbt.Inconclusive("too many paths")
            if got != w:
                raise Violation("the NuSMV specification for %s is %s, but the strategy %s it\n%s" %
                                (name, "true" if got else "false", "satisfies" if w else "violates", text))
        return (not all(want) or (bool(sp.SYS_TRANS) and bool(sp.SYS_LIVENESS) and n >= 2),
                ["changed" if c.changes else "unchanged", "satisfied" if all(want) else "violated"])


PROP = P()
