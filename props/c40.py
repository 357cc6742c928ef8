"""C40: strategies with a bias for action reach a goal that can be forced, without waiting for assumptions, in the least
possible worst-case number of steps."""
import numpy as np
from vlib import pbt, gr1, slugs, explicit
from vlib.pbt import Violation


class P(pbt.Prop):
    id = "C40"
    variants = ["slugs"]
    quick_cases = 20000
    thorough_cases = 400000
    rule = ("random specifications with --biasForAction --explicitStrategy; for every strategy state from which the pursued "
            "guarantee can be reached by force (reference attractor inside the winning region), the longest run of the strategy "
            "that does not reach it must not exceed the attractor level; non-trivial: some state has level >= 2 or some "
            "assumption could be waited for")
    assumptions = []

    def gen(self, tc):
        return gr1.gen_spec(tc), (["--sysInitRoboticsSemantics"] if tc.bool(0.3) else [])

    def render(self, case):
        return " ".join(case[1]) + "\n" + case[0].text()

    def check(self, case, ctx):
        sp, mode = case
        g = gr1.Game(sp)
        f = slugs.write(ctx, "s.slugsin", sp.text())
        r = slugs.run(ctx, ["--biasForAction", "--explicitStrategy"] + mode + [f])
        if not r.verdict:
            return {"key": sp.text(), "nontrivial": False, "labels": ["unrealizable"]}
        w = g.winning()
        st = slugs.parse_text_strategy(r.out)
        idx = explicit.structure(sp, g, st, w & g.initSys & g.initEnv)
        level = []
        for G in g.G:
            lv = np.full(g.S, -1)
            Y = np.zeros(g.S, dtype=bool)
            n = 0
            while True:
                n += 1
                nY = g.cox((G & g.to(w)) | g.to(Y))
                if (nY == Y).all():
                    break
                lv[nY & ~Y] = n
                Y = nY
            level.append(lv)
        # longest guarantee-avoiding run from each strategy state, in steps including the one that reaches the goal
        memo = {}

        def longest(n0):
            stack = [(n0, 0)]
            onpath = set()
            while stack:
                n, ph = stack.pop()
                s, (_, rank, succ) = idx[n], st.nodes[n]
                nx = [t for t in succ if not g.G[rank][s, idx[t] >> sp.no, idx[t] & (g.O - 1)]]
                if ph == 0:
                    if n in memo:
                        continue
                    if n in onpath:
                        return None
                    onpath.add(n)
                    stack.append((n, 1))
                    for t in nx:
                        if t in onpath:
                            return None
                        if t not in memo:
                            stack.append((t, 0))
                else:
                    onpath.discard(n)
                    memo[n] = (1 if succ else 0) + max([memo[t] for t in nx] or [0])
            return memo[n0]
        nt = False
        for n in st.nodes:
            s, rank = idx[n], st.nodes[n][1]
            lv = int(level[rank][s])
            if lv < 0:
                continue
            l = longest(n)
            if l is None or l > lv:
                raise Violation("from state %d <%s> guarantee %d can be reached by force in %d steps, but the strategy %s" % (
                    n, sp.state_str(s), rank, lv, "may never reach it" if l is None else "may take %d" % l))
            if lv >= 2:
                nt = True
        return {"key": sp.text(), "nontrivial": nt, "labels": ["realizable"] + (["forced in two or more steps"] if nt else [])}


PROP = P()
