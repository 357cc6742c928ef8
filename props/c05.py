"""C05: symbolic strategies (both formats) encode complete, winning strategies for every goal."""
import os
import numpy as np
from vlib import pbt, gr1, slugs, dddmp, strat as S
from vlib.pbt import Violation
from props import c18, c08

BASES = [[], ["--biasForAction"], ["--fixedPointRecycling"], ["--IROSfastslow"], ["--cooperativeGR1Strategy"]]


class P(pbt.Prop):
    id = "C05"
    variants = ["slugs"]
    quick_cases = 14000
    thorough_cases = 300000
    rule = ("random specifications (up to 2+3 propositions) with --symbolicStrategy / --simpleSymbolicStrategy for 5 algorithms; the "
            "DDDMP file is parsed, expanded to a truth table over current/next propositions, goal counter and selector, and each "
            "goal's relation is checked for safety, completeness and progress; non-trivial: realizable and a winning region with at "
            "least 2 positions and some safety guarantee")
    assumptions = ["text-mode DDDMP parser of the check"]

    def gen(self, tc):
        big = tc.bool(0.3)
        sp = gr1.gen_spec(tc, max_in=2, max_out=3 if big else 2, max_live=2 if big else 3)
        base = tc.pick(BASES)
        slow = [n for n in sp.outputs if tc.bool(0.5)] if base == ["--IROSfastslow"] else None
        mode = base + [tc.pick(["--symbolicStrategy", "--simpleSymbolicStrategy"])]
        mode += (["--sysInitRoboticsSemantics"] if tc.bool(0.35) else []) + (["--simpleRecovery"] if tc.bool(0.3) else [])
        return sp, slow, mode

    def render(self, case):
        return " ".join(case[2]) + "\n" + case[0].text(case[1])

    def check(self, case, ctx):
        sp, slow, mode = case
        coop = "--cooperativeGR1Strategy" in mode
        g = gr1.Game(sp) if slow is None else c18.fastslow_game(sp, slow)
        w = c08.coop_winning(g) if coop else g.winning()
        exp = g.realizable_robotics(w) if "--sysInitRoboticsSemantics" in mode else g.realizable(w)
        f = slugs.write(ctx, "s.slugsin", sp.text(slow))
        o = slugs.destination(ctx, "bdd.txt", sp.text(slow))
        r = slugs.run(ctx, mode + [f, o])
        if r.verdict != exp:
            raise Violation("the verdict is %s, the game says %s" % (r.verdict, exp))
        if not exp:
            if slugs.written(o) is not None:
                raise Violation("a strategy file was written for an unrealizable specification")
            return {"key": sp.text(), "nontrivial": False, "labels": ["unrealizable"]}
        text = slugs.written(o)
        if text is None:
            raise Violation("no strategy file was written")
        header = [l for l in text.split("\n") if l.startswith("#")]
        n, names = dddmp.strategy_names(header)
        nG = len(g.G) + (len(g.A) if coop else 0)
        if n != nG:
            raise Violation("the header says %d goals, there are %d" % (n, nG))
        simple = "--simpleSymbolicStrategy" in mode
        prefix = "in_" if simple else ""
        nb = 0
        while (1 << nb) <= nG:
            nb += 1
        want = [prefix + x for x in sp.inputs] + sp.outputs
        cnt = ["_jx_b%d" % b for b in range(nb)]
        full = [x + q for x in want for q in ("", "'")] + cnt + ([c + "'" for c in cnt] if simple else ["strat_type"])
        if sorted(names.values()) != sorted(full):
            raise Violation("the header lists variables %r instead of %r" % (sorted(names.values()), sorted(full)))
        num = {v: k for k, v in names.items()}
        # index: post out, post in, pre out, pre in, then counter, then selector / post counter
        order = [num[x + "'"] for x in sp.outputs] + [num[prefix + x + "'"] for x in sp.inputs] + \
                [num[x] for x in sp.outputs] + [num[prefix + x] for x in sp.inputs] + [num[c] for c in cnt] + \
                ([num[c + "'"] for c in cnt] if simple else [num["strat_type"]])
        tab = dddmp.table(text, order).reshape(-1, 1 << nb, g.S, g.I, g.O)    # (selector, counter, S, I, O)
        # trailing counter combinations
        for j in range(nG, 1 << nb):
            if tab[:, j].any():
                raise Violation("the strategy allows transitions for goal number %d, which does not exist" % j)
        toW = g.to(w)
        for j in range(nG):
            goal = g.G[j] if j < len(g.G) else None
            if simple:
                stay, go = tab[j, j], tab[(j + 1) % nG, j]
                for k in range(1 << nb):
                    if k not in (j, (j + 1) % nG) and tab[k, j].any():
                        raise Violation("goal counter jumps from %d to %d" % (j, k))
                P = stay | go
                if goal is not None and nG > 1 and ((go & ~goal).any() or (stay & goal).any()):
                    raise Violation("goal counter %d is not advanced exactly when guarantee %d is satisfied" % (j, j))
            else:
                P = tab[0, j]
                if goal is not None and (tab[1, j] != (P & goal)).any():
                    raise Violation("goal %d: transitions to the next goal are not those that satisfy guarantee %d" % (j, j))
            PW = P & w[:, None, None]
            if (PW & g.E[:, :, None] & ~(g.T & toW)).any():
                s, i, oo = np.argwhere(PW & g.E[:, :, None] & ~(g.T & toW))[0]
                raise Violation("goal %d: transition <%s> -> <%s> is not safe or leaves the winning positions" % (
                    j, sp.state_str(s), sp.state_str(i << sp.no | oo)))
            has = PW.any(axis=2)
            miss = w[:, None] & g.E & ~has
            if miss.any():
                s, i = np.argwhere(miss)[0]
                raise Violation("goal %d: no transition from winning position <%s> for allowed next input %d" % (j, sp.state_str(s), i))
            if goal is not None:
                # progress: no cycle without the goal on which all assumptions recur
                M = PW & g.E[:, :, None] & ~goal
                adj = {}
                for s in np.nonzero(w)[0]:
                    adj[int(s)] = [int(i) << sp.no | int(oo) for i, oo in np.argwhere(M[s])]
                A = [(lambda v, x, a=a: bool(a[v, x >> sp.no, x & (g.O - 1)])) for a in g.A]
                c = S.fair_cycle(adj, None, A, None)
                if c is not None:
                    raise Violation("goal %d: moves allowed by the strategy can cycle through %s, satisfying all assumptions, "
                                    "without ever satisfying the guarantee" % (j, [sp.state_str(s) for s in sorted(c)][:8]))
        nt = int(w.sum()) >= 2 and not g.T.all()
        return {"key": (sp.text(slow), tuple(mode)), "nontrivial": nt,
                "labels": ["realizable", "mode:" + " ".join(mode)] + (["several goals"] if nG > 1 else [])}


PROP = P()
