"""C28: the strategy post-processors (integer decoder, Graphviz export) show the strategy they are given."""
import io, sys, re, contextlib
from vlib import pbt, slugs, build, gr1
from vlib import structured as S
from vlib.pbt import Violation

TOOLS = build.REPO + "/tools/"


class Script:
    def __init__(self, name):
        with open(TOOLS + name) as f:
            self.code = compile(f.read(), TOOLS + name, "exec")

    def run(self, text):
        out, err = io.StringIO(), io.StringIO()
        old = sys.stdin
        sys.stdin = io.StringIO(text)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), pbt.cpu_limit("the script"):
                exec(self.code, {"__name__": "__main__"})
        except SystemExit as e:
            if e.code not in (None, 0):
                raise Violation("the script ends with %r" % (e.code,))
        except pbt.Violation:
            raise
        except Exception as e:
            raise Violation("the script fails: %s: %s" % (type(e).__name__, e))
        finally:
            sys.stdin = old
        return out.getvalue()


MODES = [["--explicitStrategy"], ["--explicitStrategy", "--simpleRecovery"], ["--counterStrategy"],
         ["--explicitStrategy", "--biasForAction"], ["--explicitStrategy", "--sysInitRoboticsSemantics"]]


class Case:
    pass


class P(pbt.Prop):
    id = "C28"
    variants = ["slugs"]
    quick_cases = 120000
    thorough_cases = 2000000
    rule = ("strategies and (decoder only) counterstrategies of slugs for random specifications over Booleans and encoded "
            "integers, and synthetic ones in the same format (larger ranges, dead ends, names with dots and digits), through both "
            "scripts; every number, bit, rank and edge is compared; non-trivial: there is a state and an integer or a dead end")
    assumptions = ["at least one proposition"]

    def setup(self, ctx):
        self.decoder = Script("explicitImplementationIntegerDecoder.py")
        self.dot = Script("explicitStrategyToGraphviz.py")

    def gen(self, tc):
        c = Case()
        c.v = S.gen_vars(tc, tc.pick([4, 6, 10]), maxint=tc.pick([4, 10, 40]))
        if not c.v.bools and not any(S.nbits(lo, hi) for _, lo, hi, _ in c.v.ints):
            c.v.bools.append(("a", "OUTPUT"))
        c.bits = []
        for s in ("INPUT", "OUTPUT"):
            grp = [[n] for n, t in c.v.bools if t == s] + [c.v.bitnames(n) for n, _, _, t in c.v.ints if t == s]
            grp = tc.shuffle(grp)
            c.bits.append([b for g in grp for b in g])
        c.real = tc.bool(0.45) and len(c.bits[0] + c.bits[1]) <= 6
        if c.real:
            sp = gr1.Spec(c.bits[0], c.bits[1])
            pre = [(n, False) for n in sp.inputs + sp.outputs]
            qi, qo = [(n, True) for n in sp.inputs], [(n, True) for n in sp.outputs]
            sp.ENV_TRANS = tc.list(lambda t: gr1.gen_clause(t, pre + qi + qi, 1, 3), 0, 4, 0.6) if sp.inputs else []
            sp.SYS_TRANS = tc.list(lambda t: gr1.gen_clause(t, pre + qi + qo + qo, 1, 3), 0, 6, 0.7)
            sp.SYS_INIT = tc.list(lambda t: gr1.gen_clause(t, pre, 1, 2), 0, 3, 0.6)
            sp.SYS_LIVENESS = tc.list(lambda t: gr1.gen_literal(t, pre), 0, 3, 0.6)
            c.sp = sp
            c.mode = tc.pick(MODES)
        else:
            n = tc.int(0, 6) if tc.bool(0.985) else tc.int(95, 120)
            c.states = []
            for i in range(n):
                c.states.append(([tc.choice(2) for _ in c.bits[0] + c.bits[1]], tc.pick(["0", "1", "12", "(0,1)", "(3,10)"]),
                                 tc.list(lambda t: t.choice(n), 0, 5, 0.7)))
            c.first = tc.pick([0, 0, 0, 7, 12345])
            c.noise = tc.bool(0.3)
        return c

    def synthetic(self, c):
        o = []
        if c.noise:
            o.append("SLUGS: some message")
        bits = c.bits[0] + c.bits[1]
        for i, (vals, rank, succ) in enumerate(c.states):
            o.append("State %d with rank %s -> <%s>" % (c.first + i, rank, ", ".join("%s:%d" % x for x in zip(bits, vals))))
            o.append("\tWith successors : " + ", ".join(str(c.first + s) for s in succ))
        return "\n".join(o) + ("\n" if o else "")

    def render(self, c):
        return " ".join(c.mode) + "\n" + c.sp.text() if c.real else self.synthetic(c)

    def check(self, c, ctx):
        if c.real:
            r = slugs.run(ctx, c.mode + [slugs.write(ctx, "s.slugsin", c.sp.text())])
            text = r.out
        else:
            text = self.synthetic(c)
        bits = c.bits[0] + c.bits[1]
        states, order = {}, []
        lines = text.split("\n")
        for i, l in enumerate(lines):
            m = re.match(r"State (\d+) with rank (\S+) -> <(.*)>$", l)
            if m:
                vals = dict(x.rsplit(":", 1) for x in m.group(3).split(", ") if m.group(3))
                succ = lines[i + 1].split(":", 1)[1].strip() if ":" in lines[i + 1] else ""
                states[m.group(1)] = (m.group(2), m.group(3), {k: int(x) for k, x in vals.items()},
                                      [s.strip() for s in succ.split(",")] if succ else [])
                order.append(m.group(1))
        dead = any(not s[3] for s in states.values())
        # decoder
        out = self.decoder.run(text)
        ol = out.split("\n")
        if len(ol) != len(lines):
            raise Violation("decoder: %d lines become %d:\n%s" % (len(lines), len(ol), out[:1500]))
        for a, b in zip(lines, ol):
            m = re.match(r"(State \d+ with rank \S+ -> )<(.*)>$", a)
            if not m:
                if a != b:
                    raise Violation("decoder: line %r becomes %r" % (a, b))
                continue
            vals = [x.rsplit(":", 1) for x in m.group(2).split(", ") if m.group(2)]
            dv = {k: int(x) for k, x in vals}
            exp = []
            for k, x in vals:
                if "@0." in k:
                    n = k[:k.index("@")]
                    lo, hi = c.v.rng(n)
                    exp.append("%s=%d" % (n, lo + sum(dv[bn] << i for i, bn in enumerate(c.v.bitnames(n)))))
                elif "@" not in k:
                    exp.append("%s:%s" % (k, x))
            e = "%s<%s>" % (m.group(1), ", ".join(exp))
            if b != e:
                raise Violation("decoder: %r becomes %r instead of %r" % (a, b, e))
        # Graphviz
        if c.real and "--counterStrategy" in c.mode:
            # not a strategy: some states have no outputs
            return {"key": text, "nontrivial": bool(states), "labels": ["counterstrategy"]}
        out = self.dot.run(text)
        if not states:
            if out.split() != 'digraph { "Empty implementation"; }'.split():
                raise Violation("the graph of an empty implementation is %r" % out)
            return {"key": text, "nontrivial": False, "labels": ["empty"]}
        nodes, edges = {}, []
        body = [l for l in out.split("\n") if l.strip()]
        if body[0] != "digraph {" or body[-1] != "}":
            raise Violation("not a graph: %r" % out[:300])
        for l in body[1:-1]:
            m = re.fullmatch(r'"(\d+)" -> "(\d+)";', l)
            if m:
                edges.append(m.groups())
                continue
            m = re.fullmatch(r'"(\d+)" \[shape=box,label="([01]*)/(\S+)"\];', l)
            if m:
                if m.group(1) in nodes:
                    raise Violation("node %s occurs twice" % m.group(1))
                nodes[m.group(1)] = m.groups()[1:]
                continue
            if l != 'node [shape=tab] "%s";' % ",".join(bits):
                raise Violation("unexpected line %r" % l)
        ref = {s: ("".join(str(x) for x in v[2].values()), v[0]) for s, v in states.items()}
        if nodes != ref:
            raise Violation("the graph has the nodes %r instead of %r" % (nodes, ref))
        if sorted(edges) != sorted((s, t) for s, v in states.items() for t in v[3]):
            raise Violation("the graph has the edges %r" % (sorted(edges),))
        labels = ["slugs: " + " ".join(c.mode) if c.real else "synthetic"] + (["dead end"] if dead else [])
        return {"key": text, "nontrivial": dead or any("@" in b for b in bits), "labels": labels}


PROP = P()
