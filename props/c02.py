"""C02: explicit strategies are complete and winning, start in every allowed initial position, and are only printed for
realizable specifications."""
from vlib import pbt, gr1, slugs, explicit
from vlib.pbt import Violation

BASES = [[], ["--biasForAction"], ["--fixedPointRecycling"]]


class P(pbt.Prop):
    id = "C02"
    variants = ["slugs"]
    quick_cases = 24000
    thorough_cases = 500000
    rule = ("random specifications solved with --explicitStrategy (plain, --biasForAction, --fixedPointRecycling; both "
            "initialization semantics; text and JSON); every printed strategy is checked against the reference game: initial "
            "states, safety, input completeness, and - by cycle analysis on transitions - that no play satisfies all liveness "
            "assumptions and misses a guarantee; non-trivial: realizable and the strategy has at least 3 states")
    assumptions = ["reference solver (cross-checked against a Zielonka parity-game solver during development)"]
    recovery = False

    def gen(self, tc):
        sp = gr1.gen_spec(tc)
        mode = tc.pick(BASES) + (["--sysInitRoboticsSemantics"] if tc.bool(0.35) else [])
        mode = mode + (["--jsonOutput"] if tc.bool(0.3) else []) + (["--simpleRecovery"] if self.recovery else [])
        return sp, mode

    def render(self, case):
        return "--explicitStrategy " + " ".join(case[1]) + "\n" + case[0].text()

    def check(self, case, ctx):
        sp, mode = case
        g = gr1.Game(sp)
        w = g.winning()
        exp = g.realizable_robotics() if "--sysInitRoboticsSemantics" in mode else g.realizable()
        f = slugs.write(ctx, "s.slugsin", sp.text())
        r = slugs.run(ctx, ["--explicitStrategy"] + mode + [f])
        if r.verdict != exp:
            raise Violation("the verdict is %s, the game says %s" % (r.verdict, exp))
        if not exp:
            if r.out.strip():
                raise Violation("a strategy is printed for an unrealizable specification")
            return {"key": sp.text(), "nontrivial": False, "labels": ["unrealizable"]}
        st = explicit.parse(r.out, "--jsonOutput" in mode)
        roots = w & g.initSys
        if not self.recovery:
            roots = roots & g.initEnv
        idx = explicit.structure(sp, g, st, roots, self.recovery)
        extra = 0
        for n, s in idx.items():
            if not w[s]:
                raise Violation("state %d <%s> is not a winning position" % (n, sp.state_str(s)))
            if self.recovery:
                answered = {idx[t] >> sp.no for t in st.nodes[n][2]}
                can = (g.T[s] & g.to(w)[0]).any(axis=1)
                for i in range(g.I):
                    if can[i] and i not in answered:
                        raise Violation("state %d <%s>: next input %d could be answered by a safe move to a winning position, "
                                        "but has no recovery transition" % (n, sp.state_str(s), i))
                    if i in answered and not g.E[s, i]:
                        extra += 1
        n = len(st.nodes)
        labels = ["realizable", "mode:" + " ".join(mode)]
        if not roots.any():
            labels.append("vacuous: no initial state")
        if any(v[1] > 0 for v in st.nodes.values()):
            labels.append("several goals pursued")
        if any(not a.all() for a in g.A):
            labels.append("with assumptions")
        nt = n >= 3
        if self.recovery:
            nt = extra > 0
            if extra:
                labels.append("recovery transitions")
        return {"key": (sp.text(), tuple(mode)), "nontrivial": nt, "labels": labels}


PROP = P()
