"""C14: the safety/liveness interaction report states the facts about the sixteen sub-specifications."""
import re
import numpy as np
from vlib import pbt, gr1, slugs
from vlib.pbt import Violation


class P(pbt.Prop):
    id = "C14"
    variants = ["slugs"]
    quick_cases = 16000
    thorough_cases = 300000
    rule = ("random specifications with --analyzeSafetyLivenessInteraction: every row of the realizability matrix is compared with "
            "the reference verdict of the sub-specification in both initialization semantics, the non-strict-implication remarks "
            "with the verdict of the game in which violating a safety guarantee only loses in the limit, the step numbers with "
            "attractor distances; non-trivial: the matrix has both answers and at least three different rows")
    assumptions = []

    def gen(self, tc):
        sp = gr1.gen_spec(tc, max_in=2 if tc.bool(0.7) else 3, max_out=2 if tc.bool(0.7) else 3)
        if tc.bool(0.5):
            at = [(n, False) for n in sp.inputs + sp.outputs]
            sp.SYS_INIT += tc.list(lambda t: gr1.gen_clause(t, at, 1, 2), 0, 2, 0.6)
            sp.ENV_INIT += tc.list(lambda t: gr1.gen_clause(t, [(n, False) for n in sp.inputs], 1, 2), 0, 2, 0.6)
        return sp

    def render(self, case):
        return case.text()

    def check(self, sp, ctx):
        f = slugs.write(ctx, "s.slugsin", sp.text())
        out = slugs.run(ctx, ["--analyzeSafetyLivenessInteraction", f]).out
        rows = {}
        for line in out.splitlines():
            c = [x.strip() for x in re.split(r"\|+", line)[1:-1]]
            if len(c) == 6 and all(x in "+-" for x in c[:4]):
                if tuple(c[:4]) in rows:
                    raise Violation("row %r is printed twice" % (c[:4],))
                rows[tuple(c[:4])] = (c[4], c[5])
        if len(rows) != 16:
            raise Violation("%d rows" % len(rows))
        res = {}
        for sa in "+-":
            for la in "+-":
                for sg in "+-":
                    for lg in "+-":
                        s = sp.copy()
                        if sa == "-":
                            s.ENV_TRANS = []
                        if la == "-":
                            s.ENV_LIVENESS = []
                        if sg == "-":
                            s.SYS_TRANS = []
                        if lg == "-":
                            s.SYS_LIVENESS = []
                        g = gr1.Game(s)
                        exp = tuple("yes" if v else "no" for v in (g.realizable(), g.realizable_robotics()))
                        res[sa, la, sg, lg] = exp
                        if rows[sa, la, sg, lg] != exp:
                            raise Violation("row %s: %r is printed, the verdicts are %r" % ((sa, la, sg, lg), rows[sa, la, sg, lg], exp))
        full = res["+", "+", "+", "+"]
        labels = []
        text = re.sub(r"\s+", " ", out)
        ns = "With a non-strict implication," in text
        if ns != (full != ("yes", "yes")):
            raise Violation("the remark about non-strict implication is %s" % ("printed" if ns else "missing"))
        if ns:
            s = sp.copy()
            s.outputs = s.outputs + ["_fail_"]
            sys = ("1",)
            for x in sp.SYS_TRANS:
                sys = ("&", x, sys)
            fl, flp = gr1.V("_fail_"), gr1.V("_fail_", True)
            s.SYS_TRANS = [("!", ("^", flp, ("|", ("!", sys), fl)))]
            s.SYS_LIVENESS = (s.SYS_LIVENESS or [("1",)]) + [("!", flp)]
            s.SYS_INIT = s.SYS_INIT + [("!", fl)]
            g = gr1.Game(s)
            cl, ro = g.realizable() and full[0] == "no", g.realizable_robotics() and full[1] == "no"
            got = ("- the specification becomes realizable in the non-robotics semantics" in text,
                   "- and the specification becomes realizable in the robotics semantics" in text)
            neg = ("- nothing changes in the non-robotics semantics" in text, "- and nothing changes in the robotics semantics" in text)
            if got != (cl, ro) or neg != (not cl, not ro):
                raise Violation("non-strict implication: becomes realizable (non-robotics, robotics) should be %r; %r" % ((cl, ro), text[-400:]))
            labels += ["non-strict helps"] if cl or ro else []
        # step numbers
        s = sp.copy()
        s.ENV_LIVENESS, s.SYS_LIVENESS = [], []
        g = gr1.Game(s)
        env = g.initEnv.reshape(g.I, g.O)[:, 0]
        m = re.findall(r"the (environment|system) can falsify the (system|environment)'s specification within (\d+) steps", text)
        cant = "can't falsify" in text
        however = "However, there is no corresponding strategy" in text
        if not g.realizable():
            W = np.zeros(g.S, bool)
            for k in range(1, g.S + 3):
                W = W | (g.E & (g.to(W) | ~g.T).all(axis=2)).any(axis=1)
                lost = env & (W | ~g.initSys).reshape(g.I, g.O).all(axis=1)
                if lost.any():
                    break
            exp = [("environment", "system", str(k))]
            if m != exp or cant:
                raise Violation("should be %r, printed %r" % (exp, text[-300:]))
            if however != (not (g.initEnv & g.initSys & W).any()):
                raise Violation("remark about initialization constraints: %r" % text[-300:])
            labels.append("environment wins in %d" % min(k, 4))
        else:
            W = np.zeros(g.S, bool)
            found = None
            for k in range(1, g.S + 3):
                W = W | ((g.T & g.to(W)).any(axis=2) | ~g.E).all(axis=1)
                ok = (W & g.initSys).reshape(g.I, g.O).any(axis=1)
                if (ok | ~env).all():
                    found = k
                    break
            exp = [("system", "environment", str(found))] if found else []
            if m != exp or cant != (not found):
                raise Violation("should be %r, printed %r" % (exp, text[-300:]))
            labels.append("system wins in %d" % min(found, 4) if found else "system cannot win by safety")
        return {"key": sp.text(), "nontrivial": len(set(rows.values())) > 1 and any("yes" in v for v in rows.values()) and
                sum(rows[r] != rows["+", "+", "+", "+"] for r in rows) >= 3, "labels": labels}


PROP = P()
