"""C16: the assumption analysis states for every assumption what dropping it does."""
import re
import numpy as np
from vlib import pbt, gr1, slugs
from vlib.pbt import Violation


def levels(g, win):
    """reactive distances: per guarantee the list of sets from which the goal is enforced within so many rounds, and the
    transitions the system may take (pre, in', out') in each round"""
    r, strat = [], []
    for G in g.G:
        goal = G & g.to(win)
        Y = np.zeros(g.S, dtype=bool)
        lv, st = [], []
        live = goal
        while True:
            live = live | g.to(Y)
            nY, paths = Y.copy(), np.zeros_like(g.T)
            for A in g.A:
                X = np.ones(g.S, dtype=bool)
                while True:
                    nX = g.cox(live | (~A & g.to(X)))
                    if (nX == X).all():
                        break
                    X = nX
                nY |= X
                paths |= (live | (~A & g.to(X))) & g.T
            lv.append(nY)
            st.append(paths)
            if (nY == Y).all():
                break
            Y = nY
        r.append(lv)
        strat.append(st)
    return r, strat


class P(pbt.Prop):
    id = "C16"
    variants = ["slugs"]
    quick_cases = 16000
    thorough_cases = 300000
    rule = ("random specifications, some with named properties (## lines), with --analyzeAssumptions; the remark about every "
            "assumption is compared with the reference game without it: realizability, winning region, equivalence with the "
            "other safety assumptions, distances to every goal; 'not in most general strategy' is refuted by a differing position "
            "that a most general strategy reaches; non-trivial: realizable, at least two different kinds of remarks")
    assumptions = ["positions count as reachable only through transitions allowed by the assumptions when a remark says that they "
                   "are not reached (slugs over-approximates)"]

    def gen(self, tc):
        sp = gr1.gen_spec(tc, max_in=2 if tc.bool(0.7) else 3, max_out=2 if tc.bool(0.7) else 3, min_in=1, min_out=1)
        at = [(n, False) for n in sp.inputs + sp.outputs] + [(n, True) for n in sp.inputs] * 2
        sp.ENV_TRANS = sp.ENV_TRANS[:4] + tc.list(lambda t: gr1.gen_clause(t, at, 1, 4) if t.bool(0.7) else gr1.gen_constraint(t, at),
                                                  0, 2, 0.7)
        if tc.bool(0.6):
            # easier to win
            sp.SYS_TRANS = sp.SYS_TRANS[:tc.choice(len(sp.SYS_TRANS) + 1)]
            sp.SYS_INIT = []
        if tc.bool(0.4):
            # one initial position, so that not everything is reached
            lit = lambda n: [gr1.V(n) if tc.bool() else ("!", gr1.V(n))]
            sp.ENV_INIT = sum((lit(n) for n in sp.inputs), [])
            sp.SYS_INIT = sum((lit(n) for n in sp.outputs), [])
        names = {}
        for sec in ("ENV_TRANS", "ENV_LIVENESS", "SYS_TRANS"):
            for i in range(len(getattr(sp, sec))):
                if tc.bool(0.3):
                    names[sec, i] = tc.pick(["p", "my property", "x -> y", "# 1", "\"q\"", ""])
        return sp, names

    def render(self, case):
        sp, names = case
        o = ["[INPUT]"] + sp.inputs + ["", "[OUTPUT]"] + sp.outputs + [""]
        for s in gr1.SECTIONS:
            if getattr(sp, s):
                o.append("[%s]" % s)
                for i, f in enumerate(getattr(sp, s)):
                    if (s, i) in names:
                        o += ["## " + names[s, i], "# comment"]
                    o.append(gr1.to_slugs(f))
                o.append("")
        return "\n".join(o)

    def check(self, case, ctx):
        sp, names = case
        f = slugs.write(ctx, "s.slugsin", self.render(case))
        out = slugs.run(ctx, ["--analyzeAssumptions", f]).out
        g = gr1.Game(sp)
        win = g.winning()
        if not g.realizable():
            if out != "Starting with an unrealizable specification --> Analyzing the assumptions does not make sense.\n":
                raise Violation("unexpected output for an unrealizable specification: %r" % out[:200])
            return {"key": None, "nontrivial": False, "labels": ["unrealizable"]}
        head = "Starting with a realizable specification (in the standard GR(1) semantics).\n\n"
        if not out.startswith(head):
            raise Violation("the specification is realizable, slugs prints %r" % out[:200])
        lines = out[len(head):].split("\n")
        if lines[-1] != "":
            raise Violation("no line end")
        lines.pop()
        dist, strat = levels(g, win)
        reach = None
        want = [("ENV_TRANS", i, names.get(("ENV_TRANS", i)) or "Safety Assumption %d" % (i + 1)) for i in range(len(sp.ENV_TRANS))]
        want += [("ENV_LIVENESS", i, names.get(("ENV_LIVENESS", i)) or "Liveness Assumption %d" % (i + 1))
                 for i in range(len(sp.ENV_LIVENESS))]
        if not sp.ENV_LIVENESS:
            want.append(("ENV_LIVENESS", None, "Automatically added TRUE liveness assumption"))
        if len(lines) != len(want):
            raise Violation("%d assumptions, but %d remarks" % (len(want), len(lines)))
        kinds = set()
        for (sec, i, name), l in zip(want, lines):
            if not l.startswith('"%s" ' % name):
                raise Violation("expected a remark about %r, got %r" % (name, l))
            l = l[len(name) + 3:]
            s2 = sp.copy()
            if i is not None:
                del getattr(s2, sec)[i]
            h = gr1.Game(s2)
            w2 = h.winning()
            if not h.realizable():
                exp = ["is crucially needed."]
            elif (w2 != win).any():
                yes = "makes more positions winning, which helps for satisfying the GR(1) robotics semantics."
                no = "makes more positions winning, but without any effect of the GR(1) robotics semantics."
                d = win & ~w2
                exp = [yes] if (d & g.initEnv & g.initSys).any() else [no] if not (d & g.initEnv).any() else [yes, no]
            elif sec == "ENV_TRANS" and (h.E == g.E).all():
                exp = ["is redundant and implied by the other safety assumptions."]
            else:
                d2, _ = levels(h, w2)
                diff = {}
                for j in range(len(dist)):
                    for k in range(max(len(d2[j]), len(dist[j]))):
                        a, b = dist[j][min(k, len(dist[j]) - 1)], d2[j][min(k, len(d2[j]) - 1)]
                        if (a != b).any():
                            diff[j] = diff.get(j, False) | (a & ~b)
                if diff:
                    m = re.fullmatch(r"makes reaching the system goals (.*) easier for the system\.", l)
                    if not m:
                        raise Violation("%s: dropping it makes goals %r harder to reach, but the remark is %r" % (name, sorted(diff), l))
                    got = {}
                    for x in m.group(1).split(", "):
                        n = re.fullmatch(r"(\d+)( \(but not in most general stategy\))?", x)
                        if not n:
                            raise Violation("%s: cannot read %r" % (name, l))
                        got[int(n.group(1))] = bool(n.group(2))
                    if sorted(got) != sorted(diff):
                        raise Violation("%s: dropping it makes goals %r harder to reach, but the remark is %r" % (name, sorted(diff), l))
                    if reach is None:
                        reach = self.reachable(g, strat)
                    for j in got:
                        if got[j] and (diff[j] & reach).any():
                            raise Violation("%s: goal %d: the differing position <%s> is reached by a most general strategy, remark: %r"
                                            % (name, j, sp.state_str(int(np.flatnonzero(diff[j] & reach)[0])), l))
                        kinds.add("not in most general strategy" if got[j] else "in most general strategy")
                    exp = [l]
                else:
                    exp = ["is superfluous."]
            if l not in exp:
                raise Violation("%s: expected %r, got %r" % (name, exp, l))
            kinds.add(exp[0][:20])
        return {"key": self.render(case), "nontrivial": len(kinds) > 1, "labels": sorted(kinds)}

    def reachable(self, g, strat):
        moves = []
        for st in strat:
            m = np.zeros_like(g.T)
            cov = np.zeros((g.S, g.I), dtype=bool)
            for p in st:
                new = p.any(axis=2) & ~cov
                m |= new[:, :, None] & p
                cov |= new
            moves.append(m & g.E[:, :, None])
        n = len(moves)
        # (position, goal): the goal changes when it is reached
        R = [g.initEnv & g.initSys & g.winning() if j == 0 else np.zeros(g.S, dtype=bool) for j in range(n)]
        while True:
            N = [r.copy() for r in R]
            for j in range(n):
                for i, mv in enumerate((moves[j] & g.G[j], moves[j] & ~g.G[j])):
                    t = mv.reshape(g.S, g.S)[R[j]].any(axis=0)
                    N[(j + 1) % n if i == 0 else j] |= t
            if all((a == b).all() for a, b in zip(N, R)):
                break
            R = N
        r = np.zeros(g.S, dtype=bool)
        for x in R:
            r |= x
        return r


PROP = P()
