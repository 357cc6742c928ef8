"""C08: cooperative strategies are winning, never run the environment into a dead end, and always leave it a way to satisfy
its liveness assumptions."""
import numpy as np
from vlib import pbt, gr1, slugs, explicit, strat as S
from vlib.pbt import Violation


def coop_winning(g):
    """Reference solution: the nested fixed point of cooperative GR(1) synthesis on explicit arrays."""
    nd = g.E.any(axis=1)
    N = g.T & g.to(nd)                       # safe transitions that do not lead to environment dead ends
    E3 = g.E[:, :, None]

    def cox(F):
        return (F.any(axis=2) | ~g.E).all(axis=1)
    Z = np.ones(g.S, dtype=bool)
    while True:
        nxt = np.ones(g.S, dtype=bool)
        for G in g.G:
            live = G & g.to(Z)
            Y = np.zeros(g.S, dtype=bool)
            while True:
                live = live | g.to(Y)
                good = Y.copy()
                for A in g.A:
                    X = np.ones(g.S, dtype=bool)
                    while True:
                        C = np.zeros(g.S, dtype=bool)
                        while True:
                            F = (live | (g.to(X & C) & ~A)) & N & E3
                            nC = F.any(axis=(1, 2))
                            if (nC == C).all():
                                break
                            C = nC
                        nX = cox(F)
                        if (nX == X).all():
                            break
                        X = nX
                    good |= X
                if (good == Y).all():
                    break
                Y = good
            nxt &= Y
        for A in g.A:
            M = np.zeros(g.S, dtype=bool)
            F = A & N & nxt[:, None, None] & g.to(nxt) & E3
            while True:
                nM = F.any(axis=(1, 2)) | M
                F = F | (g.to(nM) & E3 & N & nxt[:, None, None])
                if (nM == M).all():
                    break
                M = nM
            nxt = nxt & M
        if (nxt == Z).all():
            return Z
        Z = nxt


class P(pbt.Prop):
    id = "C08"
    variants = ["slugs"]
    quick_cases = 20000
    thorough_cases = 400000
    rule = ("random specifications with --cooperativeGR1Strategy; the printed strategy must satisfy the specification, answer every "
            "allowed input, avoid environment dead ends, and from each of its states some continuation must satisfy all "
            "assumptions and guarantees infinitely often; verdict compared with a reference fixed point; non-trivial: realizable, "
            "at least 3 states and a liveness assumption that is not always true")
    assumptions = []

    def gen(self, tc):
        sp = gr1.gen_spec(tc)
        return sp, (["--sysInitRoboticsSemantics"] if tc.bool(0.35) else []) + (["--jsonOutput"] if tc.bool(0.2) else [])

    def render(self, case):
        return " ".join(case[1]) + "\n" + case[0].text()

    def check(self, case, ctx):
        sp, mode = case
        g = gr1.Game(sp)
        w = coop_winning(g)
        exp = g.realizable_robotics(w) if "--sysInitRoboticsSemantics" in mode else g.realizable(w)
        f = slugs.write(ctx, "s.slugsin", sp.text())
        r = slugs.run(ctx, ["--explicitStrategy", "--cooperativeGR1Strategy"] + mode + [f])
        if r.verdict != exp:
            raise Violation("the verdict is %s, the cooperative game says %s" % (r.verdict, exp))
        if (w & ~g.winning()).any():
            raise pbt.Inconclusive("reference solution is not sound")
        if not exp:
            return {"key": sp.text(), "nontrivial": False, "labels": ["unrealizable"]}
        st = explicit.parse(r.out, "--jsonOutput" in mode)
        roots = w & g.initSys & g.initEnv
        idx = explicit.structure(sp, g, st, roots, rankcheck=False, nranks=len(g.G) + len(g.A))
        edges = {n: v[2] for n, v in st.nodes.items()}
        for n, s in idx.items():
            if not g.E[s].any() and n >= int(roots.sum()):
                raise Violation("the strategy runs into environment dead end %d <%s>" % (n, sp.state_str(s)))
        # cooperation: a fair cycle stays reachable
        ev = lambda a: (lambda v, x: bool(a[idx[v], idx[x] >> sp.no, idx[x] & (g.O - 1)]))
        preds = [ev(a) for a in g.A + g.G]
        good = set()
        for comp in S.sccs(edges):
            es = [(v, x) for v in comp for x in edges[v] if x in comp]
            if es and all(any(p(v, x) for v, x in es) for p in preds):
                good |= comp
        rev = {}
        for v, ws in edges.items():
            for x in ws:
                rev.setdefault(x, []).append(v)
        todo = list(good)
        while todo:
            v = todo.pop()
            for u in rev.get(v, []):
                if u not in good:
                    good.add(u)
                    todo.append(u)
        for n in st.nodes:
            if n not in good and g.E[idx[n]].any():
                raise Violation("from state %d <%s> rank %d the environment cannot satisfy its liveness assumptions any more" % (
                    n, sp.state_str(idx[n]), st.nodes[n][1]))
        nt = len(st.nodes) >= 3 and any(not a.all() for a in g.A)
        return {"key": (sp.text(), tuple(mode)), "nontrivial": nt,
                "labels": ["realizable"] + (["differs from the standard winning region"] if (w != g.winning()).any() else [])}


PROP = P()
