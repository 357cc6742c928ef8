"""C29: the AIG circuits for safety specifications define the same game."""
import numpy as np
from vlib import pbt, gr1, slugs, jython
from vlib.pbt import Violation
from props import c10

SCRIPT = "translateSafetySlugsSpecToSyntCompAIGFormat.py"


class Aig:
    """An AIGER file in ASCII format."""
    def __init__(self, text):
        lines = text.split("\n")
        h = lines[0].split(" ")
        if h[0] != "aag" or len(h) != 6:
            raise Violation("the header is %r" % lines[0])
        m, i, l, o, a = [int(x) for x in h[1:]]
        pos = 1

        def block(n, width):
            nonlocal pos
            r = []
            for x in lines[pos:pos + n]:
                v = [int(y) for y in x.split(" ")]
                if len(v) not in width:
                    raise Violation("line %r has the wrong number of literals" % x)
                if any(y < 0 or y > 2 * m + 1 for y in v):
                    raise Violation("line %r has a literal outside of 0..%d" % (x, 2 * m + 1))
                r.append(v)
            pos += n
            return r
        self.inp = [v[0] for v in block(i, (1,))]
        self.latch = [(v[0], v[1]) for v in block(l, (2,))]
        self.out = [v[0] for v in block(o, (1,))]
        gates = block(a, (3,))
        self.gate = {v[0]: v[1:] for v in gates}
        defs = self.inp + [x[0] for x in self.latch] + [g[0] for g in gates]
        if any(d & 1 or d == 0 for d in defs) or len(set(defs)) != len(defs):
            raise Violation("a literal is defined twice, negated, or is the constant")
        self.names = {}
        while pos < len(lines) and lines[pos][:1] in ("i", "l", "o"):
            k, n = lines[pos].split(" ", 1)
            if k in self.names:
                raise Violation("%s is named twice" % k)
            self.names[k] = n
            pos += 1
        if lines[pos] != "c":
            raise Violation("after the symbols there is the line %r" % lines[pos])
        self.comment = lines[pos + 1:]
        self.order = []
        state = {}
        for g in self.gate:
            stack = [(g, 0)]
            while stack:
                x, k = stack.pop()
                if k == 2:
                    if state[x] == 1:
                        state[x] = 2
                        self.order.append(x)
                    continue
                if k == 0:
                    if state.get(x) == 2:
                        continue
                    if state.get(x) == 1:
                        raise Violation("the gates are cyclic")
                    state[x] = 1
                stack.append((x, k + 1))
                y = self.gate[x][k] & ~1
                if y in self.gate and state.get(y) != 2:
                    if state.get(y) == 1:
                        raise Violation("the gates are cyclic")
                    stack.append((y, 0))
        known = set(defs) | {0}
        used = [y for g in self.gate.values() for y in g] + [x[1] for x in self.latch] + self.out
        for y in used:
            if y & ~1 not in known:
                raise Violation("literal %d is used but not defined" % y)

    def eval(self, latches, inputs):
        """latches, inputs: lists of bool arrays; returns (next latches, outputs)"""
        n = len((inputs + latches)[0])
        v = {0: np.zeros(n, bool)}
        for x, a in zip(self.inp, inputs):
            v[x] = a
        for (x, _), a in zip(self.latch, latches):
            v[x] = a

        def lit(y):
            return ~v[y & ~1] if y & 1 else v[y & ~1]
        for x in self.order:
            a, b = self.gate[x]
            v[x] = lit(a) & lit(b)
        return [lit(x[1]) for x in self.latch], [lit(x) for x in self.out]


class P(pbt.Prop):
    id = "C29"
    variants = ["slugs"]
    quick_cases = 30000
    thorough_cases = 500000
    rule = ("random safety specifications (up to 3+3 propositions, also with memory buffers in the formulas), the circuit is read and "
            "compared with the specification in all reachable product states for all inputs, and its safety game is solved; "
            "non-trivial: at least one guarantee and an error output that is not constant")
    assumptions = ["Jython runs the Python 2 script as Python 2 does"]

    def setup(self, ctx):
        self.tools = jython.Tools(ctx)

    def teardown(self, ctx):
        self.tools.stop()

    def gen(self, tc):
        sp = gr1.gen_spec(tc, max_in=3, max_out=3, max_live=2, graphs=tc.bool(0.6))
        live = tc.bool(0.04)
        sp.ENV_LIVENESS = sp.ENV_LIVENESS if live else []
        sp.SYS_LIVENESS = sp.SYS_LIVENESS if live else []
        sp.io = tc.bool(0.15)
        pi, po = [(n, False) for n in sp.inputs], [(n, False) for n in sp.outputs]
        if sp.io:
            sp.ENV_INIT = sp.ENV_INIT + [gr1.gen_clause(tc, pi + po, 1, 3)]
        if tc.bool(0.4):
            s = tc.pick(["ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS"])
            pool = {"ENV_INIT": pi, "SYS_INIT": pi + po, "ENV_TRANS": pi + po + [(n, True) for n in sp.inputs],
                    "SYS_TRANS": pi + po + [(n, True) for n in sp.inputs + sp.outputs]}[s]
            if pool:
                f = c10.gen_mem_formula(tc, pool, 3, 0)
                l = list(getattr(sp, s))
                l.insert(tc.choice(len(l) + 1), f)
                setattr(sp, s, l)
        sp.noise = tc.list(lambda t: (t.choice(60), t.pick(["# comment", "", "  ", "#[INPUT]"])), 0, 3, 0.3)
        return sp

    def text(self, sp):
        lines = sp.text().split("\n")
        for p, t in sp.noise:
            lines.insert(p % (len(lines) + 1), t)
        return "\n".join(lines)

    def render(self, sp):
        return self.text(sp)

    def check(self, sp, ctx):
        text = self.text(sp)
        f = slugs.write(ctx, "s.slugsin", text)
        r = self.tools.run(SCRIPT, [f])
        if sp.ENV_LIVENESS or sp.SYS_LIVENESS:
            if r.rc == 0:
                raise Violation("a specification with liveness constraints is translated")
            return {"key": text, "nontrivial": False, "labels": ["liveness refused"]}
        if r.rc != 0:
            raise Violation("exit code %d: %s" % (r.rc, r.err[-600:]))
        a = Aig(r.out)
        ins, outs = sp.inputs, sp.outputs
        k = sp.k
        want = {"i%d" % j: n for j, n in enumerate(ins + ["controllable_" + x for x in outs])}
        got = {x: n for x, n in a.names.items() if x[0] == "i"}
        if got != want:
            raise Violation("the inputs of the circuit are named %r instead of %r" % (got, want))
        if len(a.inp) != k or len(a.out) != 1:
            raise Violation("the circuit has %d inputs and %d outputs" % (len(a.inp), len(a.out)))
        if any(not ("l%d" % j) in a.names for j in range(len(a.latch))) or len(a.names) != k + len(a.latch) + 1:
            raise Violation("symbol table %r" % a.names)

        # reference
        EI, SI, ET, ST = [sp.conj(getattr(sp, s)) for s in gr1.SECTIONS[:4]]
        S, I, O = EI.shape
        initE, initS = EI[:, 0, 0], SI[:, 0, 0]
        tE, tS = ET.reshape(S, S), ST.reshape(S, S)
        # all letters; letter s = in * 2^no + out
        letters = np.arange(S)
        bits = [(letters >> (sp.no + j) & 1).astype(bool) for j in range(sp.ni)] + [(letters >> j & 1).astype(bool) for j in range(sp.no)]
        nl = len(a.latch)
        # product states: (latches, reference state); reference: -1 before the first step, otherwise last letter, or S: assumptions violated
        start = ((False,) * nl, -1)
        num = {start: 0}
        todo = [start]
        moves = []        # per state: (error vector, successor numbers)
        nerr = 0
        while todo:
            batch, todo = todo, []
            lat = [np.repeat(np.array([b[0][j] for b in batch], bool), S) for j in range(nl)]
            inp = [np.tile(b, len(batch)) for b in bits]
            nxt, out = a.eval(lat, inp) if k else a.eval(lat or [np.zeros(1, bool)], [])
            codes = np.array(nxt, bool).reshape(nl, len(batch), S)
            err = out[0].reshape(len(batch), S)
            for bi, (_, q) in enumerate(batch):
                if q == S:
                    ok, bad = np.zeros(S, bool), np.zeros(S, bool)
                elif q < 0:
                    ok = initE
                    bad = initE & ~initS
                else:
                    ok = tE[q]
                    bad = tE[q] & ~tS[q]
                d = err[bi] != bad
                if d.any():
                    s = int(np.flatnonzero(d)[0])
                    raise Violation("after %s, the error output is %d for the valuation %s, the specification is %sviolated by the system" % (
                        "no step" if q < 0 else "violated assumptions" if q == S else "valuation " + self.val(sp, q),
                        err[bi][s], self.val(sp, s), "" if bad[s] else "not "))
                nerr += int(bad.sum())
                succ = []
                for s in range(S):
                    p = (tuple(codes[:, bi, s].tolist()), s if ok[s] else S)
                    if p not in num:
                        num[p] = len(num)
                        todo.append(p)
                    succ.append(num[p])
                moves.append((bad, succ))
                if len(num) > 4 * (S + 2):
                    raise Violation("the circuit has more than %d reachable states" % (4 * (S + 2)))
        labels = ["error reachable" if nerr else "error not reachable"]
        if "$" in text:
            labels.append("memory buffers")
        if not sp.io:
            # the safety game of the circuit (environment first), which the system wins iff the specification is realizable
            n = len(num)
            succ = np.array([m[1] for m in moves]).reshape(n, I, O)
            bad = np.array([m[0] for m in moves]).reshape(n, I, O)
            win = np.ones(n, bool)
            while True:
                new = win & (~bad & win[succ]).any(axis=2).all(axis=1)
                if (new == win).all():
                    break
                win = new
            v = slugs.run(ctx, [f]).verdict
            if bool(win[0]) != v:
                raise Violation("the circuit is %srealizable, slugs says the specification is %s" % ("" if win[0] else "not ", v))
            labels.append("realizable" if v else "unrealizable")
        nt = nerr > 0 and bool(sp.SYS_INIT or sp.SYS_TRANS)
        return {"key": text if nt else None, "nontrivial": nt, "labels": labels}

    def val(self, sp, s):
        i, o = s >> sp.no, s & ((1 << sp.no) - 1)
        return " ".join(["%s=%d" % (n, i >> j & 1) for j, n in enumerate(sp.inputs)] + ["%s=%d" % (n, o >> j & 1) for j, n in enumerate(sp.outputs)])


PROP = P()
