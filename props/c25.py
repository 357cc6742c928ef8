"""C25: verdicts and strategies do not depend on how a specification is written, and follow the order of difficulty."""
import re
from vlib import pbt, gr1, slugs, strat
from vlib.pbt import Violation
from vlib.gr1 import V, Spec, SECTIONS, to_slugs
from props.c15 import rename

ALGOS = [[], ["--fixedPointRecycling"], ["--biasForAction"]]
# modes whose complete output is a function of the game and the names alone
OUT = [["--explicitStrategy"], ["--explicitStrategy", "--jsonOutput"], ["--explicitStrategy", "--simpleRecovery"],
       ["--explicitStrategy", "--sysInitRoboticsSemantics"], ["--biasForAction", "--explicitStrategy"],
       ["--fixedPointRecycling", "--explicitStrategy"], ["--cooperativeGR1Strategy", "--explicitStrategy"],
       ["--extractExplicitPermissiveStrategy"], ["--counterStrategy"], ["--counterStrategy", "--sysInitRoboticsSemantics"],
       ["--computeInterestingRunOfTheSystem"], ["--computeAbstractWinningTrace"], ["--symbolicStrategy", "FILE"],
       ["--simpleSymbolicStrategy", "FILE"], ["--explicitStrategy", "FILE"]]
NAMED = OUT + [["--analyzeInitialPositions"], ["--analyzeInitialPositions", "--restrictToReachableStates"], ["--analyzeInterleaving"],
               ["--analyzeAssumptions"], ["--analyzeSafetyLivenessInteraction"], ["--computeWeakenedSafetyAssumptions"],
               ["--computeCNFFormOfTheSpecification"]]


def random_name(tc, used):
    while True:
        n = "".join(tc.pick(a) for a in ("qrstuv", "0123456789", "abcABC012", "xyz"))
        if n not in used:
            used.add(n)
            return n


def big_spec(tc, ni, no, tag=""):
    sp = Spec(["i%d%s" % (i, tag) for i in range(ni)], ["o%d%s" % (i, tag) for i in range(no)])
    pi, po = [(n, False) for n in sp.inputs], [(n, False) for n in sp.outputs]
    qi, qo = [(n, True) for n in sp.inputs], [(n, True) for n in sp.outputs]
    pool = {"ENV_INIT": pi, "SYS_INIT": pi + po + po}
    if not tc.bool(0.3):
        gr1.gen_graph_sections(tc, sp, pool, 3, True, True, True)
    else:
        # every constraint talks about some propositions only
        for s, p in (("ENV_TRANS", pi + po + qi + qi), ("SYS_TRANS", pi + po + qi + qo + qo)):
            setattr(sp, s, tc.list(lambda t: gr1.gen_constraint(t, p), 0, 8, 0.75))
        for s in ("ENV_LIVENESS", "SYS_LIVENESS"):
            setattr(sp, s, tc.list(lambda t: ("!", gr1.gen_clause(t, pi + po + qi + qo, 1, 3)), 0, 3, 0.7))
        sp.SYS_INIT = tc.list(lambda t: gr1.gen_clause(t, pi + po, 1, 2), 0, 3, 0.5)
        sp.ENV_INIT = tc.list(lambda t: gr1.gen_clause(t, pi or [], 1, 2), 0, 2, 0.4)
    return sp


def rewrite(tc, f, depth=3):
    """An equivalent formula."""
    if f[0] in "&|^":
        l, r = rewrite(tc, f[1], depth - 1), rewrite(tc, f[2], depth - 1)
        how = tc.choice(4) if depth > 0 else 0
        if how == 1:
            l, r = r, l
        if how == 2:
            if f[0] == "^":
                return ("!", ("^", ("!", l), r))
            return ("!", ("|" if f[0] == "&" else "&", ("!", l), ("!", r)))
        if how == 3:
            # a memory cell
            if f[0] == "^":
                return (f[0], l, r)
            return ("!", ("!", (f[0], l, r)))
        return (f[0], l, r)
    if f[0] == "!":
        return ("!", rewrite(tc, f[1], depth - 1))
    return f


def split(f):
    return split(f[1]) + split(f[2]) if f[0] == "&" else [f]


def render_spec(tc, sp, order, exact):
    """The text of sp with sections in the given order, comments, blank lines and split or merged conjunctions."""
    out = []

    def noise():
        while tc.bool(0.15):
            out.append(tc.pick(["", "# a comment", "   ", "#[SYS_TRANS]", "# & a b"]))
    for s in order:
        noise()
        out.append("[%s]" % s)
        if s in ("INPUT", "OUTPUT"):
            for n in (sp.inputs if s == "INPUT" else sp.outputs):
                noise()
                out.append(n)
            continue
        fs = getattr(sp, s)
        if not s.endswith("LIVENESS"):
            if tc.bool(0.6):
                fs = [g for f in fs for g in (split(f) if tc.bool(0.7) else [f])]
            if tc.bool(0.5):
                fs = tc.shuffle(fs)
            if len(fs) > 1 and tc.bool(0.3):
                fs = [("&", fs[0], fs[1])] + fs[2:]
            if fs and tc.bool(0.25):
                fs = fs + [fs[tc.choice(len(fs))]]
            if tc.bool(0.2):
                fs = fs + [("1",)]
        elif not exact:
            if tc.bool(0.6):
                fs = tc.shuffle(fs)
            if fs and tc.bool(0.3):
                fs = fs + [fs[tc.choice(len(fs))]]
            if tc.bool(0.2):
                fs = fs + [("1",)]
        fs = [rewrite(tc, f) if tc.bool(0.6) else f for f in fs]
        if fs and tc.bool(0.15):
            # the section is split in two
            k = tc.choice(len(fs) + 1)
            out.extend(to_slugs(f) for f in fs[:k])
            noise()
            out.append("[%s]" % s)
            fs = fs[k:]
        for f in fs:
            noise()
            t = to_slugs(f)
            if tc.bool(0.2):
                t = tc.pick([" ", "  ", "\t"]) + t.replace(" ", "  ") + " "
            out.append(t)
    noise()
    return "\n".join(out) + tc.pick(["\n", "", "\n\n"])


class Case:
    pass


class P(pbt.Prop):
    id = "C25"
    variants = ["slugs"]
    quick_cases = 45000
    thorough_cases = 500000
    rule = ("relations between runs on generated specifications with up to 14 propositions: consistent renaming, equivalent text (order "
            "of sections and constraints, split and merged conjunctions, equivalent formulas, comments), permuted declarations, added "
            "assumptions and guarantees, an output given to the environment, unused propositions, and the composition of disjoint "
            "specifications with known verdicts; and medium specifications (up to 8 propositions) with verdict and strategy "
            "against the reference solver; non-trivial: specifications with a SYS_TRANS and a SYS_LIVENESS constraint")
    assumptions = ["specifications with more than 8 propositions are only checked through relations"]

    def gen(self, tc):
        c = Case()
        c.what = tc.pick(["rename", "text", "text", "permute", "monotone", "monotone", "control", "unused", "compose", "compose", "medium",
                          "medium"])
        getattr(self, "gen_" + c.what)(tc, c)
        return c

    def base(self, tc, c):
        if tc.bool(0.5):
            c.sp = gr1.gen_spec(tc)
        else:
            c.sp = big_spec(tc, tc.int(1, 4), tc.int(1, 4))

    def gen_rename(self, tc, c):
        self.base(tc, c)
        used = set()
        c.n1 = {n: random_name(tc, used) for n in c.sp.inputs + c.sp.outputs}
        c.n2 = {n: random_name(tc, used) for n in c.sp.inputs + c.sp.outputs}
        c.mode = tc.pick(NAMED)
        c.t1, c.t2 = (self.renamed(c.sp, m).text() for m in (c.n1, c.n2))

    @staticmethod
    def renamed(sp, m):
        r = Spec([m[n] for n in sp.inputs], [m[n] for n in sp.outputs])
        for s in SECTIONS:
            setattr(r, s, [rename(f, m) for f in getattr(sp, s)])
        return r

    def gen_text(self, tc, c):
        self.base(tc, c)
        c.mode = tc.pick(OUT)
        secs = tc.shuffle(SECTIONS)
        order = ["INPUT", "OUTPUT"] + secs
        c.t1 = c.sp.text()
        c.t2 = render_spec(tc, c.sp, order, True)

    def gen_permute(self, tc, c):
        self.base(tc, c)
        c.mode = tc.pick(ALGOS + [["--sysInitRoboticsSemantics"], ["--counterStrategy"]])
        c.t1 = c.sp.text()
        sp = c.sp.copy()
        sp.inputs, sp.outputs = tc.shuffle(sp.inputs), tc.shuffle(sp.outputs)
        order = (["INPUT", "OUTPUT"] if tc.bool() else ["OUTPUT", "INPUT"]) + tc.shuffle(SECTIONS)
        c.t2 = render_spec(tc, sp, order, False)
        c.sp2 = sp

    def gen_monotone(self, tc, c):
        c.sp = big_spec(tc, tc.int(1, 6), tc.int(1, 6)) if tc.bool(0.8) else gr1.gen_spec(tc, min_in=1, min_out=1)
        sp = c.sp.copy()
        c.mode = tc.pick(ALGOS + [["--sysInitRoboticsSemantics"]])
        i, o = sp.inputs, sp.outputs
        pre = [(n, False) for n in i + o]
        pi = [(n, False) for n in i]
        c.change = tc.pick(["ENV_TRANS", "ENV_LIVENESS", "ENV_INIT", "SYS_TRANS", "SYS_LIVENESS", "SYS_INIT"])
        if c.change.endswith("TRANS"):
            f = gr1.gen_constraint(tc, pre + [(n, True) for n in i + i + (o + o if c.change == "SYS_TRANS" else [])])
        elif c.change.endswith("INIT"):
            f = gr1.gen_clause(tc, pi if c.change == "ENV_INIT" else pre, 1, 2)
        else:
            f = ("!", gr1.gen_clause(tc, pre + [(n, True) for n in i + o], 1, 3))
        getattr(sp, c.change).insert(tc.choice(len(getattr(sp, c.change)) + 1), f)
        c.sp2 = sp
        c.t1, c.t2 = c.sp.text(), sp.text()

    def gen_control(self, tc, c):
        c.sp = big_spec(tc, tc.int(1, 5), tc.int(2, 6)) if tc.bool(0.7) else gr1.gen_spec(tc, min_in=1, min_out=2)
        c.mode = tc.pick(ALGOS + [["--sysInitRoboticsSemantics"]])
        sp = c.sp.copy()
        n = tc.pick(sp.outputs)
        sp.outputs = [x for x in sp.outputs if x != n]
        sp.inputs = sp.inputs + [n]
        c.sp2 = sp
        c.t1, c.t2 = c.sp.text(), sp.text()

    def gen_unused(self, tc, c):
        self.base(tc, c)
        c.mode = tc.pick(ALGOS + [["--sysInitRoboticsSemantics"]])
        sp = c.sp.copy()
        for _ in range(tc.int(1, 3)):
            l = sp.inputs if tc.bool() else sp.outputs
            l.insert(tc.choice(len(l) + 1), "unused%d" % len(sp.inputs + sp.outputs))
        c.sp2 = sp
        c.t1, c.t2 = c.sp.text(), sp.text()

    def gen_compose(self, tc, c):
        n = tc.int(2, 4)
        c.parts = []
        for i in range(n):
            p = gr1.gen_spec(tc) if n == 2 else gr1.gen_spec(tc, max_in=2, max_out=2)
            m = {x: "%s%d" % (x, i) for x in p.inputs + p.outputs}
            c.parts.append(self.renamed(p, m))
        if tc.bool(0.5):
            # only the first part restricts the environment
            for p in c.parts[1:]:
                p.ENV_INIT, p.ENV_TRANS, p.ENV_LIVENESS = [], [], []
        c.mode = tc.pick(ALGOS + [["--sysInitRoboticsSemantics"]])
        sp = Spec(tc.shuffle([x for p in c.parts for x in p.inputs]), tc.shuffle([x for p in c.parts for x in p.outputs]))
        for s in SECTIONS:
            setattr(sp, s, tc.shuffle([f for p in c.parts for f in getattr(p, s)]))
        c.sp = sp
        c.t1, c.t2 = sp.text(), None

    def gen_medium(self, tc, c):
        k = tc.int(5, 8)
        ni = tc.int(1, min(4, k - 2))
        c.sp = big_spec(tc, ni, min(k - ni, 5))
        c.mode = tc.pick([["--explicitStrategy"], ["--explicitStrategy", "--sysInitRoboticsSemantics"],
                          ["--explicitStrategy", "--fixedPointRecycling"], ["--explicitStrategy", "--biasForAction"],
                          ["--counterStrategy"], ["--fixedPointRecycling"], []])
        c.t1, c.t2 = c.sp.text(), None

    def render(self, c):
        r = "%s %s\n%s" % (c.what, " ".join(c.mode), c.t1)
        if c.what == "compose":
            r += "\n(parts: %s)" % ", ".join(str(p.inputs + p.outputs) for p in c.parts)
        return r + ("\n---------- second\n" + c.t2 if c.t2 else "")

    # ------------------------------------------------------------------ runs
    def go(self, ctx, name, text, mode):
        f = slugs.write(ctx, name, text)
        args = []
        out = None
        for a in mode:
            if a == "FILE":
                out = f + ".out"
            else:
                args.append(a)
        args.append(f)
        if out:
            open(out, "w").close()
            args.append(out)
        r = slugs.run(ctx, args, cpu=60)
        txt = r.out
        if out:
            txt += open(out, encoding="latin-1").read()
        return r, txt

    def check(self, c, ctx):
        sp = c.sp
        labels = [c.what]
        r1, o1 = self.go(ctx, "a.slugsin", c.t1, c.mode)
        verdict = lambda r: r.verdict if c.what not in ("rename", "text") else re.findall("^RESULT.*", r.err, re.M)
        v1 = verdict(r1)
        labels.append("%s:%s" % (c.what, "realizable" if v1 not in (False, ["RESULT: Specification is unrealizable."]) else "unrealizable"))
        if c.t2 is not None:
            r2, o2 = self.go(ctx, "b.slugsin", c.t2, c.mode)
            v2 = verdict(r2)
        if c.what == "rename":
            back = lambda t, m: re.sub(r"[q-v][0-9][abcABC012][xyz]", lambda x: m.get(x.group(0), x.group(0)), t)
            p1 = back(o1, {v: "<%s>" % n for n, v in c.n1.items()})
            p2 = back(o2, {v: "<%s>" % n for n, v in c.n2.items()})
            if v1 != v2 or p1 != p2:
                raise Violation("after renaming %r to %r the result differs:\n%s\n----\n%s" % (c.n1, c.n2, o1[:1500], o2[:1500]))
        elif c.what == "text":
            if v1 != v2 or o1 != o2:
                raise Violation("equivalent specifications, different results (%s / %s):\n%s\n----\n%s" % (v1, v2, o1[:1500], o2[:1500]))
        elif c.what in ("permute", "unused"):
            if v1 != v2:
                raise Violation("verdict %s changes to %s" % (v1, v2))
        elif c.what == "monotone":
            labels.append("change:" + c.change + (" flips" if v1 != v2 else ""))
            easier = c.change.startswith("ENV") or (c.change == "SYS_INIT" and "--sysInitRoboticsSemantics" in c.mode)
            if v1 != v2 and v2 != easier:
                raise Violation("one more %s constraint changes the verdict from %s to %s" % (c.change, v1, v2))
        elif c.what == "control":
            if v2 and not v1:
                raise Violation("realizable with %s controlled by the environment, but not if the system controls it" %
                                c.sp2.inputs[-1])
            if v1 != v2:
                labels.append("control decides")
        elif c.what == "compose":
            rob = "--sysInitRoboticsSemantics" in c.mode
            vs = []
            for p in c.parts:
                g = gr1.Game(p)
                vs.append((g.realizable_robotics() if rob else g.realizable(), g))
            exp = None
            if all(v for v, _ in vs):
                exp = True
            else:
                free = lambda p, g: not (p.ENV_INIT or p.ENV_TRANS or p.ENV_LIVENESS) and \
                    (not rob or bool((g.initEnv & g.initSys).any()))
                for i, (v, _) in enumerate(vs):
                    if not v and all(free(p, vs[j][1]) for j, p in enumerate(c.parts) if j != i):
                        exp = False
            labels.append("compose:expected %s" % exp)
            if exp is not None and v1 != exp:
                raise Violation("the parts are %s, but slugs calls the composition %s" %
                                ([v for v, _ in vs], "realizable" if v1 else "unrealizable"))
        else:
            g = gr1.Game(sp)
            w = g.winning()
            exp = g.realizable_robotics(w) if "--sysInitRoboticsSemantics" in c.mode else g.realizable(w)
            if w.any() and not w.all():
                labels.append("mixed winning region")
            if exp != v1:
                raise Violation("slugs says %s, the reference solver %s" % (v1, exp))
            if v1 and "--explicitStrategy" in c.mode and "--biasForAction" not in c.mode:
                st = slugs.parse_text_strategy(o1)
                labels.append("strategy with %s states" % ("more than 100" if len(st.nodes) > 100 else "up to 100"))
                strat.check_strategy(sp, g, st)
        return {"key": (c.what, tuple(c.mode), c.t1, c.t2), "nontrivial": bool(sp.SYS_TRANS and sp.SYS_LIVENESS), "labels": labels}


PROP = P()
