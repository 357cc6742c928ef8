"""C07: permissive strategies start in every winning position, contain the ordinary strategy, and all of their plays win."""
import re
import numpy as np
from vlib import pbt, gr1, slugs, strat as S
from vlib.pbt import Violation
from props import c18

RE = re.compile(r"^State (\d+) with rank (\d+)$")


def parse(text):
    nodes = {}
    for block in text.split("\n\n"):
        lines = block.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        if not lines:
            continue
        m = RE.match(lines[0])
        if not m or len(lines) < 2:
            raise Violation("permissive strategy: cannot read %r" % lines[:3])
        n = int(m.group(1))
        if n in nodes:
            raise Violation("permissive strategy: state %d is listed twice" % n)
        nodes[n] = (slugs.parse_valuation(lines[1]), int(m.group(2)), [int(x) for x in lines[2:]])
    return nodes


class P(pbt.Prop):
    id = "C07"
    variants = ["slugs"]
    quick_cases = 12000
    thorough_cases = 250000
    rule = ("random specifications (at least one proposition) with --extractExplicitPermissiveStrategy (4 algorithms, both "
            "initialization semantics); every printed strategy is checked for completeness, safety, absence of losing cycles over all "
            "of its choices, and inclusion of the ordinary explicit strategy; non-trivial: some state offers a choice for one input")
    assumptions = []

    def gen(self, tc):
        sp = gr1.gen_spec(tc)
        if sp.k == 0:
            sp.outputs = ["x"]
        base = tc.pick([[], ["--biasForAction"], ["--fixedPointRecycling"], ["--IROSfastslow"]])
        slow = [n for n in sp.outputs if tc.bool(0.5)] if base == ["--IROSfastslow"] else None
        return sp, slow, base + (["--sysInitRoboticsSemantics"] if tc.bool(0.35) else [])

    def render(self, case):
        return " ".join(case[2]) + "\n" + case[0].text(case[1])

    def check(self, case, ctx):
        sp, slow, mode = case
        g = gr1.Game(sp) if slow is None else c18.fastslow_game(sp, slow)
        w = g.winning()
        exp = g.realizable_robotics() if "--sysInitRoboticsSemantics" in mode else g.realizable()
        f = slugs.write(ctx, "s.slugsin", sp.text(slow))
        r = slugs.run(ctx, ["--extractExplicitPermissiveStrategy"] + mode + [f])
        if r.verdict != exp:
            raise Violation("the verdict is %s, the game says %s" % (r.verdict, exp))
        if not exp:
            if r.out.strip():
                raise Violation("a strategy is printed for an unrealizable specification")
            return {"key": sp.text(), "nontrivial": False, "labels": ["unrealizable"]}
        nodes = parse(r.out)
        idx = {n: S.state_index(sp, [a for a, _ in v[0]], [b for _, b in v[0]]) for n, v in nodes.items()}
        where = {}
        for n in nodes:
            k = (idx[n], nodes[n][1])
            if k in where:
                raise Violation("states %d and %d are the same" % (n, where[k]))
            where[k] = n
        nr = int(w.sum())
        if sorted(idx[n] for n in range(nr) if n in idx and nodes[n][1] == 0) != [int(x) for x in w.nonzero()[0]]:
            raise Violation("the first states are not the winning positions with rank 0")
        adj, choice = {}, False
        for n, s in idx.items():
            succ = nodes[n][2]
            if len(set(succ)) != len(succ) or any(t not in nodes for t in succ):
                raise Violation("state %d has duplicate or unlisted successors" % n)
            ins = {}
            for t in succ:
                i, o = idx[t] >> sp.no, idx[t] & (g.O - 1)
                ins[i] = ins.get(i, 0) + 1
                if not g.T[s, i, o] or not g.E[s, i]:
                    raise Violation("transition %d -> %d (<%s> -> <%s>) is not allowed by the safety parts" % (
                        n, t, sp.state_str(s), sp.state_str(idx[t])))
                rank, target = nodes[n][1], nodes[t][1]
                k = 0
                while rank != target:
                    if not g.G[rank][s, i, o]:
                        raise Violation("transition %d -> %d changes the rank without satisfying guarantee %d" % (n, t, rank))
                    rank = (rank + 1) % len(g.G)
            for i in range(g.I):
                if g.E[s, i] and i not in ins:
                    raise Violation("state %d <%s> has no successor for allowed input %d" % (n, sp.state_str(s), i))
            choice = choice or any(c > 1 for c in ins.values())
            adj[n] = succ
        if len(S.reachable(_G(adj), range(nr))) != len(nodes):
            raise Violation("unreachable states are listed")
        ev = lambda a: (lambda v, x: bool(a[idx[v], idx[x] >> sp.no, idx[x] & (g.O - 1)]))
        for j, x in enumerate(g.G):
            c = S.fair_cycle(adj, None, [ev(a) for a in g.A], ev(x))
            if c is not None:
                raise Violation("a play through states %s satisfies all assumptions but not guarantee %d" % (sorted(c)[:10], j))
        # the ordinary strategy is contained
        r2 = slugs.run(ctx, ["--explicitStrategy"] + mode + [f])
        st = slugs.parse_text_strategy(r2.out)
        ix = {n: S.state_index(sp, st.variables, v[0]) for n, v in st.nodes.items()}
        for n, (_, rank, succ) in st.nodes.items():
            p = where.get((ix[n], rank))
            if p is None:
                raise Violation("position <%s> with rank %d of the ordinary strategy is missing" % (sp.state_str(ix[n]), rank))
            have = {idx[t] for t in adj[p]}
            for t in succ:
                if ix[t] not in have:
                    raise Violation("the permissive strategy does not permit <%s> -> <%s> (rank %d), which the ordinary one uses" % (
                        sp.state_str(ix[n]), sp.state_str(ix[t]), rank))
        return {"key": (sp.text(slow), tuple(mode)), "nontrivial": choice, "labels": ["realizable"] + (["choices"] if choice else [])}


class _G:
    def __init__(self, adj):
        self.nodes = {n: (None, None, s) for n, s in adj.items()}


PROP = P()
