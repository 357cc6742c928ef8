"""C20: the interesting run is a run of the game in which the goals are reached as promised."""
import re
import numpy as np
from vlib import pbt, gr1, slugs
from vlib.pbt import Violation
from props.c15 import rename


class Case:
    pass


class P(pbt.Prop):
    id = "C20"
    variants = ["slugs"]
    quick_cases = 50000
    thorough_cases = 900000
    rule = ("random specifications, some with number groups, with --computeInterestingRunOfTheSystem; every row of the table is "
            "checked: winning initial start, legal transitions between winning positions, goal numbers and + signs, progress of the "
            "environment within its attractor distance, no cycle with all assumptions but without the pending guarantee, Env.Loses "
            "only in dead ends; non-trivial: a run over at least two positions with a + in both columns, or one that ends")
    assumptions = ["which of several interesting runs is printed is not specified; it has at most 101 rows"]

    def gen(self, tc):
        c = Case()
        sp = gr1.gen_spec(tc, max_in=2, max_out=3 if tc.bool(0.3) else 2, max_live=3, init=tc.bool(0.45))
        if tc.bool(0.25) and sp.k:
            full = [(n, p) for n in sp.inputs + sp.outputs for p in (False, True)]
            for _ in range(tc.int(1, 2)):
                f = None
                for n, p in full:
                    l = ("!", gr1.V(n, p)) if tc.bool(0.5) else gr1.V(n, p)
                    f = l if f is None else ("&", f, l)
                s = tc.pick(["ENV_LIVENESS", "SYS_LIVENESS"])
                if getattr(sp, s):
                    getattr(sp, s)[0] = ("|", getattr(sp, s)[0], f) if tc.bool() else f
                else:
                    getattr(sp, s).append(f)
        m, c.groups = {}, {}
        for names, base in ((sp.inputs, "n"), (sp.outputs, "p")):
            if names and tc.bool(0.3):
                lo = tc.choice(len(names))
                w = tc.int(1, len(names) - lo)
                mn = tc.choice(6)
                m[names[lo]] = "%s@0.%d.%d" % (base, mn, mn + (1 << w) - 1)
                for b in range(1, w):
                    m[names[lo + b]] = "%s@%d" % (base, b)
                c.groups[base] = (mn, [m[x] for x in names[lo:lo + w]])
        c.sp = gr1.Spec([m.get(n, n) for n in sp.inputs], [m.get(n, n) for n in sp.outputs],
                        **{s: [rename(f, m) for f in getattr(sp, s)] for s in gr1.SECTIONS})
        return c

    def render(self, c):
        return c.sp.text()

    def check(self, c, ctx):
        sp = c.sp
        g = gr1.Game(sp)
        no, O = sp.no, g.O
        w = g.winning()
        ok0 = w & g.initEnv & g.initSys
        f = slugs.write(ctx, "s.slugsin", sp.text())
        r = slugs.run(ctx, ["--computeInterestingRunOfTheSystem", f])
        lines = r.out.split("\n")
        if not ok0.any():
            if not r.out.startswith("There is no position that is winning"):
                raise Violation("there is no winning initial position, but slugs prints %r" % r.out[:200])
            return {"key": None, "nontrivial": False, "labels": ["no start"]}
        if not lines[0].startswith("Env.L.A. | Sys.L.G. | Input") or lines[-2:] != ["", ""]:
            raise Violation("unexpected output %r" % r.out[:300])
        rows = [l.split() for l in lines[2:-2]]
        grouped = {n for _, l in c.groups.values() for n in l}

        def cell(d, t):
            m = re.fullmatch(r"(\w+)=(-?\d+)", t)
            if m and m.group(1) in c.groups:
                mn, bits = c.groups[m.group(1)]
                v = int(m.group(2)) - mn
                if v < 0 or v >= 1 << len(bits):
                    raise Violation("value %s is out of range" % t)
                new = {n: v >> b & 1 for b, n in enumerate(bits)}
            else:
                n = t.lstrip("!")
                if n in grouped:
                    raise Violation("%s is shown as a bit" % n)
                new = {n: int(t == n)}
            for n in new:
                if n in d:
                    raise Violation("%s is shown twice" % n)
            d.update(new)
        states, eg, sg, ep, sgp = [], [], [], [], []
        end = None
        for n, row in enumerate(rows):
            try:
                e, b1, s, b2 = row[:4]
                rest = row[4:]
            except ValueError:
                raise Violation("row %d cannot be read: %r" % (n, row))
            if not re.fullmatch(r"\d+\+?", e) or not re.fullmatch(r"\d+\+?", s) or (b1, b2) != ("|", "|"):
                raise Violation("row %d cannot be read: %r" % (n, row))
            eg.append(int(e.rstrip("+")))
            sg.append(int(s.rstrip("+")))
            ep.append(e.endswith("+"))
            sgp.append(s.endswith("+"))
            if eg[-1] >= len(g.A) or sg[-1] >= len(g.G):
                raise Violation("row %d: goal numbers out of range: %r" % (n, row))
            if rest in (["Env.Loses"], ["Sys.Loses"]):
                if n != len(rows) - 1:
                    raise Violation("the run continues after %s" % rest[0])
                end = rest[0]
                break
            if "|" not in rest:
                raise Violation("row %d cannot be read: %r" % (n, row))
            k = rest.index("|")
            di, do = {}, {}
            for t in rest[:k]:
                cell(di, t)
            for t in rest[k + 1:]:
                cell(do, t)
            if set(di) != set(sp.inputs) or set(do) != set(sp.outputs):
                raise Violation("row %d shows the wrong propositions: %r" % (n, row))
            states.append(sum(di[x] << b for b, x in enumerate(sp.inputs)) << no | sum(do[x] << b for b, x in enumerate(sp.outputs)))
        if not states:
            raise Violation("the run has no position")
        if not ok0[states[0]]:
            raise Violation("the run starts in <%s>, which is not a winning initial position" % sp.state_str(states[0]))
        if (eg[0], sg[0]) != (0, 0):
            raise Violation("the run does not start with goals 0 and 0")
        name = lambda n: "row %d, <%s> -> <%s>" % (n, sp.state_str(states[n]), sp.state_str(states[n + 1]))
        for n, (s, t) in enumerate(zip(states, states[1:])):
            i, o = t >> no, t & (O - 1)
            if not g.E[s, i]:
                raise Violation("%s violates the safety assumptions" % name(n))
            if not g.T[s, i, o]:
                raise Violation("%s violates the safety guarantees" % name(n))
            if not w[t]:
                raise Violation("%s leaves the winning positions" % name(n))
            a, b = bool(g.A[eg[n]][s, i, o]), bool(g.G[sg[n]][s, i, o])
            if ep[n] != a:
                raise Violation("%s: assumption %d is%s satisfied" % (name(n), eg[n], "" if a else " not"))
            if sgp[n] != b:
                raise Violation("%s: guarantee %d is%s satisfied" % (name(n), sg[n], "" if b else " not"))
            if eg[n + 1] != (eg[n] + a) % len(g.A) or sg[n + 1] != (sg[n] + b) % len(g.G):
                raise Violation("%s: wrong next goals %d and %d" % (name(n), eg[n + 1], sg[n + 1]))
        dead = ~g.E[states[-1]].any()
        if end == "Sys.Loses" or end == "Env.Loses" and not dead:
            raise Violation("the run ends with %s in <%s>, which is not lost for that player" % (end, sp.state_str(states[-1])))
        if end is None and len(states) < 101 and not dead:
            raise Violation("the run ends after %d rows without reason" % len(states))
        if ep[-1] or sgp[-1]:
            raise Violation("the last row has a + without a further transition")
        # the environment reaches its goals as soon as it can force it without getting stuck
        nd = np.ones(g.S, dtype=bool)
        while True:
            mv = ((~g.T | g.to(nd)).all(axis=2)) & g.E
            n2 = mv.any(axis=1)
            if (n2 == nd).all():
                break
            nd = n2
        ndt = mv[:, :, None]
        dist = []
        for a in g.A:
            d = np.full(g.S, -1)
            win = np.zeros(g.S, dtype=bool)
            lev = 0
            while True:
                lev += 1
                m = (((a | g.to(win)) & ndt) | ~g.T).all(axis=2) & g.E
                new = m.any(axis=1)
                if (new & ~win == False).all():
                    break
                d[new & ~win] = lev
                win = win | new
            dist.append(d)
        last = len(states) - 1
        for n in range(last):
            d = dist[eg[n]][states[n]]
            if d > 0 and n + d <= last and not any(ep[n:n + d]):
                raise Violation("%s: the environment can force assumption %d within %d steps, but does not" % (name(n), eg[n], d))
        # the system makes progress
        p = 0
        while p < last:
            q = p
            while q < last and not sgp[q]:
                q += 1
            seen = {}
            for n in range(p, q + 1):
                if states[n] in seen:
                    m = seen[states[n]]
                    if all(any(a[states[x], states[x + 1] >> no, states[x + 1] & (O - 1)] for x in range(m, n)) for a in g.A):
                        raise Violation("rows %d to %d are a cycle in which all assumptions are satisfied, but not guarantee %d" % (
                            m, n, sg[m]))
                else:
                    seen[states[n]] = n
            p = q + 1
        nt = len(set(states)) > 1 and any(ep) and any(sgp) or end is not None and len(states) > 1
        return {"key": sp.text() if nt else None, "nontrivial": nt,
                "labels": (["ends"] if end else []) + (["groups"] if c.groups else [])}


PROP = P()
