"""C01: the realizability verdict is the one of the two-player game (both initialization semantics, all algorithms)."""
from vlib import pbt, gr1, slugs
from vlib.pbt import Violation

MODES = [[], ["--sysInitRoboticsSemantics"], ["--fixedPointRecycling"], ["--fixedPointRecycling", "--sysInitRoboticsSemantics"],
         ["--biasForAction"], ["--biasForAction", "--sysInitRoboticsSemantics"]]


class P(pbt.Prop):
    id = "C01"
    variants = ["slugs"]
    quick_cases = 40000
    thorough_cases = 800000
    rule = ("random specifications (0-3 inputs, 0-3 outputs, 0-12 constraints per section) from clause, formula and "
            "graph-like generators, solved by slugs and by an explicit-state fixed-point solver; two thirds of the cases replace "
            "the initial conditions by the winning region or part of the losing region; non-trivial: the winning region "
            "is neither empty nor everything, or initial conditions decide the verdict")
    assumptions = ["reference solver (cross-checked against a Zielonka parity-game solver during development)"]

    def gen(self, tc):
        sp = gr1.gen_spec(tc)
        probe = tc.weighted([(2, "raw"), (3, "winning"), (2, "losing")])
        return sp, tc.pick(MODES), probe, tc.choice(1 << max(sp.ni, 1))

    def render(self, case):
        sp, mode, probe, i = case
        return " ".join(mode) + "\n" + self.probed(sp, mode, probe, i)[0].text()

    @staticmethod
    def probed(sp, mode, probe, i):
        """Replaces the initial conditions so that the verdict tells whether all of the winning region was found (every
        winning position is initial, robotics semantics), or whether a losing position was found to be winning."""
        mode = [m for m in mode if m != "--sysInitRoboticsSemantics"] if probe != "raw" else mode
        if probe == "raw":
            return sp, mode
        w = gr1.Game(sp).winning()
        sp = sp.copy()

        def dnf(sel):
            r = ("0",)
            for s in sel:
                c = ("1",)
                for b, n in enumerate(sp.inputs):
                    v = gr1.V(n)
                    c = ("&", v if s >> (sp.no + b) & 1 else ("!", v), c)
                for b, n in enumerate(sp.outputs):
                    v = gr1.V(n)
                    c = ("&", v if s >> b & 1 else ("!", v), c)
                r = ("|", c, r)
            return r
        sp.ENV_INIT = []
        if probe == "winning":
            sp.SYS_INIT = [dnf([s for s in range(len(w)) if w[s]])]
            return sp, mode + ["--sysInitRoboticsSemantics"]
        sp.SYS_INIT = [dnf([s for s in range(len(w)) if not w[s]])]
        for b, n in enumerate(sp.inputs):
            sp.ENV_INIT.append(gr1.V(n) if i >> b & 1 else ("!", gr1.V(n)))
        return sp, mode

    def check(self, case, ctx):
        sp, mode, probe, i = case
        sp, mode = self.probed(sp, mode, probe, i)
        g = gr1.Game(sp)
        w = g.winning()
        std, rob = g.realizable(), g.realizable_robotics()
        exp = rob if "--sysInitRoboticsSemantics" in mode else std
        f = slugs.write(ctx, "s.slugsin", sp.text())
        got = slugs.run(ctx, mode + [f]).verdict
        if got != exp:
            raise Violation("slugs %s says %s, the game says %s" % (
                " ".join(mode), "realizable" if got else "unrealizable", "realizable" if exp else "unrealizable"))
        some = bool(w.any() and not w.all())
        labels = ["probe:" + probe, "realizable" if exp else "unrealizable", "mode:" + (" ".join(mode) or "plain")]
        if some:
            labels.append("mixed winning region")
        if std != rob:
            labels.append("semantics differ")
        return {"key": (sp.text(), tuple(mode)), "nontrivial": some or std != rob or (exp and not w.all()) or (not exp and bool(w.any())),
                "labels": labels}


PROP = P()
