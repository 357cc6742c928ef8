"""C06: counterstrategies are winning for the environment against every admissible behaviour of the system."""
import os, re
import numpy as np
from vlib import pbt, gr1, slugs, strat as S
from vlib.pbt import Violation

RE = re.compile(r"^State (\d+) with rank \((\d+),(\d+)\) -> <(.*)>$")


def parse(text):
    """id -> (valuation list, rank, successors or None for a deadlock state)"""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    nodes, i = {}, 0
    while i < len(lines):
        m = RE.match(lines[i])
        if not m or i + 1 >= len(lines):
            raise Violation("counterstrategy: cannot read %r" % lines[i:i + 2])
        n = int(m.group(1))
        if n in nodes:
            raise Violation("counterstrategy: state %d is listed twice" % n)
        nx = lines[i + 1]
        if nx == "\tWith no successors.":
            succ = None
        elif nx.startswith("\tWith successors : "):
            t = nx[len("\tWith successors : "):].strip()
            succ = [int(x) for x in t.split(", ")] if t else []
        else:
            raise Violation("counterstrategy: cannot read %r" % nx)
        nodes[n] = (slugs.parse_valuation(m.group(4)), (int(m.group(2)), int(m.group(3))), succ)
        i += 2
    return nodes


class P(pbt.Prop):
    id = "C06"
    variants = ["slugs"]
    quick_cases = 24000
    thorough_cases = 500000
    rule = ("random specifications with --counterStrategy (both initialization semantics); the printed counterstrategy must pick one "
            "allowed input per state, list exactly the system's safe answers (or a real deadlock), start in losing positions that "
            "cover the refutation, and every infinite play must satisfy all assumptions and miss a guarantee; non-trivial: "
            "unrealizable and at least one state with successors")
    assumptions = []

    def gen(self, tc):
        if tc.bool(0.4):
            sp = gr1.gen_spec(tc, max_sec=6)
            # fewer accidental assumption violations: more unrealizable specifications with long plays
            if len(sp.ENV_TRANS) > 1:
                sp.ENV_TRANS = sp.ENV_TRANS[:1]
        else:
            sp = gr1.gen_spec(tc)
        return sp, (["--sysInitRoboticsSemantics"] if tc.bool(0.35) else []), tc.bool(0.2)

    def render(self, case):
        return " ".join(case[1]) + "\n" + case[0].text()

    def check(self, case, ctx):
        sp, mode, tofile = case
        g = gr1.Game(sp)
        rob = bool(mode)
        exp = g.realizable_robotics() if rob else g.realizable()
        f = slugs.write(ctx, "s.slugsin", sp.text())
        o = slugs.destination(ctx, "cs.txt", sp.text())
        r = slugs.run(ctx, ["--counterStrategy"] + mode + [f] + ([o] if tofile else []))
        if open(f).read() != sp.text():
            raise Violation("the specification file was overwritten")
        if tofile:
            if r.out.strip():
                raise Violation("the counterstrategy goes to stdout although an output file is given")
            r.out = slugs.written(o)
            if not r.verdict and r.out is None:
                raise Violation("no output file was written")
            r.out = r.out or ""
        if r.verdict != exp:
            raise Violation("the verdict is %s, the game says %s" % (r.verdict, exp))
        if exp:
            if r.out.strip():
                raise Violation("a counterstrategy is printed for a realizable specification")
            return {"key": sp.text(), "nontrivial": False, "labels": ["realizable"]}
        nodes = parse(r.out)
        lose = ~g.winning()
        roots = lose & g.initEnv & g.initSys
        nroots = int(roots.sum())
        idx, dead = {}, {}
        for n, (val, rank, succ) in nodes.items():
            d = dict(val)
            if succ is None:
                if list(d) != sp.inputs:
                    raise Violation("deadlock state %d does not list the inputs" % n)
                dead[n] = sum(d[x] << b for b, x in enumerate(sp.inputs))
            else:
                idx[n] = S.state_index(sp, [v for v, _ in val], [v for _, v in val])
                if not lose[idx[n]]:
                    raise Violation("state %d <%s> is winning for the system" % (n, sp.state_str(idx[n])))
            if not (rank[0] < len(g.A) and rank[1] < len(g.G)):
                raise Violation("state %d has rank %r" % (n, rank))
        if sorted(idx[n] for n in range(nroots) if n in idx) != [int(x) for x in roots.nonzero()[0]]:
            raise Violation("the first states are not the initial positions from which the environment wins")
        adj = {}
        long = 0
        for n, s in idx.items():
            succ = nodes[n][2]
            if not succ:
                raise Violation("state %d <%s>: the counterstrategy does not say what to do" % (n, sp.state_str(s)))
            if any(t not in nodes for t in succ):
                raise Violation("state %d has unlisted successors" % n)
            ds = [t for t in succ if t in dead]
            if ds:
                i = dead[ds[0]]
                if len(succ) != 1:
                    raise Violation("state %d mixes a deadlock with other successors" % n)
                if not g.E[s, i] or g.T[s, i].any():
                    raise Violation("state %d <%s>: input %d is not allowed or does not deadlock the system" % (n, sp.state_str(s), i))
                adj[n] = []
                continue
            ins = {idx[t] >> sp.no for t in succ}
            if len(ins) != 1:
                raise Violation("state %d: the counterstrategy uses several inputs" % n)
            i = ins.pop()
            if not g.E[s, i]:
                raise Violation("state %d <%s>: input %d violates the safety assumptions" % (n, sp.state_str(s), i))
            outs = sorted(idx[t] & (g.O - 1) for t in succ)
            if outs != [int(x) for x in g.T[s, i].nonzero()[0]]:
                raise Violation("state %d <%s>, input %d: the successors are not exactly the system's safe answers" % (n, sp.state_str(s), i))
            adj[n] = list(succ)
            long += 1
        ev = lambda a: (lambda v, x: bool(a[idx[v], idx[x] >> sp.no, idx[x] & (g.O - 1)]))
        for k, a in enumerate(g.A):
            c = S.fair_cycle(adj, None, [], ev(a))
            if c is not None:
                raise Violation("a play through states %s violates liveness assumption %d" % (sorted(c)[:10], k))
        c = S.fair_cycle(adj, None, [ev(x) for x in g.G], None)
        if c is not None:
            raise Violation("a play through states %s satisfies all liveness guarantees" % sorted(c)[:10])
        labels = ["unrealizable"]
        if dead:
            labels.append("with deadlocks")
        if any(v[1] != (0, 0) for v in nodes.values()):
            labels.append("several ranks")
        if long and any(len(x) > 1 for x in adj.values()):
            labels.append("system has choices")
        return {"key": (sp.text(), rob), "nontrivial": long > 0, "labels": labels}


PROP = P()
