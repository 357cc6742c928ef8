"""C21: abstract winning traces: who can win in finite time from the start, in how many rounds, and how."""
import re
import numpy as np
from vlib import pbt, gr1, slugs
from vlib.pbt import Violation
from props.c15 import rename


class Case:
    pass


class P(pbt.Prop):
    id = "C21"
    variants = ["slugs"]
    quick_cases = 70000
    thorough_cases = 1200000
    rule = ("random specifications, some with number groups, with --computeAbstractWinningTrace; the tables are read back: which "
            "tables are printed, the number of rounds against the reference attractor, the start against the initial positions, every "
            "column as a set of positions from which the next column (or the win) can be forced, no undetermined value that could "
            "be fixed, and the last input of the environment; non-trivial: a table with at least two columns")
    assumptions = ["with number groups only soundness of the columns is checked, as * hides which bits are fixed"]

    def gen(self, tc):
        c = Case()
        sp = gr1.gen_spec(tc, max_in=2, max_out=3 if tc.bool(0.3) else 2, max_live=1)
        pi, po, qi, qo = ([(n, p) for n in l] for l, p in ((sp.inputs, False), (sp.outputs, False), (sp.inputs, True), (sp.outputs, True)))
        kind = tc.weighted([(3, "plain"), (4, "sys"), (4, "env")])
        if kind == "sys" and sp.no:
            # the system runs into a dead end, or not
            sp.SYS_TRANS += [("|", ("!", gr1.cube(sp.inputs + sp.outputs, tc.choice(1 << sp.k), False)), ("0",))
                             for _ in range(tc.int(1, 3))]
        if kind == "env" and sp.ni:
            sp.ENV_TRANS += [("|", ("!", gr1.cube(sp.inputs + sp.outputs, tc.choice(1 << sp.k), False)), ("0",))
                             for _ in range(tc.int(1, 3))]
        if tc.bool(0.5):
            sp.SYS_INIT = [gr1.gen_clause(tc, pi + po + po, 1, 2) for _ in range(tc.int(1, 3))] if sp.k else sp.SYS_INIT
        m, c.groups = {}, {}
        if tc.bool(0.25):
            for names, base in ((sp.inputs, "n"), (sp.outputs, "p")):
                if names and tc.bool(0.6):
                    lo = tc.choice(len(names))
                    w = tc.int(1, len(names) - lo)
                    mn = tc.choice(6)
                    m[names[lo]] = "%s@0.%d.%d" % (base, mn, mn + (1 << w) - 1)
                    for b in range(1, w):
                        m[names[lo + b]] = "%s@%d" % (base, b)
                    c.groups[base] = (mn, [m[x] for x in names[lo:lo + w]])
        c.sp = gr1.Spec([m.get(n, n) for n in sp.inputs], [m.get(n, n) for n in sp.outputs],
                        **{s: [rename(f, m) for f in getattr(sp, s)] for s in gr1.SECTIONS})
        return c

    def render(self, c):
        return c.sp.text()

    def check(self, c, ctx):
        sp = c.sp
        g = gr1.Game(sp)
        f = slugs.write(ctx, "s.slugsin", sp.text())
        r = slugs.run(ctx, ["--computeAbstractWinningTrace", f])
        out = r.out
        nt = False
        labels = []
        for env in (True, False):
            title = "Abstract countertrace:\n" if env else "Abstract trace:\n"
            who = "environment" if env else "system"

            def cpre(Z):
                if env:
                    return ((g.to(Z) | ~g.T).all(axis=2) & g.E).any(axis=1)
                return g.cox(g.to(Z) & g.T)
            U = [np.zeros(g.S, dtype=bool)]
            found = False
            io = lambda a: a.reshape(g.I, g.O)
            while True:
                n = U[-1] | cpre(U[-1])
                if env:
                    found = bool((io(g.initEnv)[:, 0] & (~io(g.initSys) | io(n)).all(axis=1)).any())
                else:
                    found = bool((~io(g.initEnv)[:, 0] | (io(g.initSys) & io(n)).any(axis=1)).all())
                stop = (n == U[-1]).all()
                if found:
                    U.append(n)
                    break
                if stop:
                    break
                U.append(n)
            if not found:
                if out.startswith(title) or out.startswith("There is no strategy for the " + who):
                    raise Violation("the %s cannot win in finite time from the start, but slugs prints %r" % (who, out[:400]))
                continue
            rounds = len(U) - 1
            start = g.initEnv & g.initSys & U[-1]
            if not start.any():
                if not out.startswith("There is no strategy for the " + who):
                    raise Violation("there is no initial position from which the %s can win, but slugs prints %r" % (who, out[:400]))
                out = out.split("\n\n", 1)[1]
                continue
            if not out.startswith(title):
                raise Violation("the %s can win in finite time from the start, but slugs prints %r" % (who, out[:400]))
            body, out = out[len(title):].split("\n\n", 1)
            rows = [[x.strip() for x in l.split("|")] for l in body.split("\n") if l.startswith("|")]
            rows = [[x for x in l if x] for l in rows]
            if not rows or rows[0] != ["Atomic prop./Round"] + [str(x) for x in range(rounds + 1)]:
                raise Violation("%s: expected rounds 0 to %d, got %r" % (who, rounds, rows[:1]))
            tab = {}
            for l in rows[1:]:
                if len(l) != rounds + 2 or l[0] in tab:
                    raise Violation("row cannot be read: %r" % (l,))
                tab[l[0]] = l[1:]
            grouped = {x for _, bits in c.groups.values() for x in bits}
            want = {n for n in sp.inputs + sp.outputs if n not in grouped} | set(c.groups)
            if set(tab) != want:
                raise Violation("the table shows %s instead of %s" % (sorted(tab), sorted(want)))

            def column(n):
                """(is X, {bit: value})"""
                vals, x = {}, set()
                for name, cells in tab.items():
                    v = cells[n]
                    if v == "X":
                        x.add(True)
                        continue
                    x.add(False)
                    if v == "*":
                        continue
                    if name in c.groups:
                        mn, bits = c.groups[name]
                        if not re.fullmatch(r"-?\d+", v) or not 0 <= int(v) - mn < 1 << len(bits):
                            raise Violation("%s has the value %r in round %d" % (name, v, n))
                        vals.update({q: (int(v) - mn) >> b & 1 for b, q in enumerate(bits)})
                    elif v in ("0", "1"):
                        vals[name] = int(v)
                    else:
                        raise Violation("%s has the value %r in round %d" % (name, v, n))
                if len(x) > 1:
                    raise Violation("round %d is partly X" % n)
                return x == {True}, vals
            lit = {}
            for n in sp.inputs + sp.outputs:
                b = sp.no + sp.inputs.index(n) if n in sp.inputs else sp.outputs.index(n)
                lit[n] = (np.arange(g.S) >> b & 1).astype(bool)
            # columns in order of time; D[n] is the set of positions described
            D, cols = [], []
            for n in range(rounds + 1):
                x, vals = column(n)
                cols.append((x, vals))
                s = U[rounds - n].copy()
                if x:
                    s &= False
                for q, v in vals.items():
                    s &= lit[q] if v else ~lit[q]
                D.append(s)
            if sp.k and (cols[0][0] or len(cols[0][1]) != sp.k) or not (D[0] & start).any():
                raise Violation("%s: round 0 is not an initial position from which the win can be forced in %d rounds: %r" % (who, rounds, cols[0]))
            D[0] &= start
            if sp.k and not c.groups:
                # undetermined values of the columns in between: nothing can be fixed, everything stays forced
                for n in range(1, rounds):
                    for q in sp.inputs + sp.outputs:
                        if q not in cols[n][1] and not cols[n][0] and (not (D[n] & lit[q]).any() or not (D[n] & ~lit[q]).any()):
                            raise Violation("%s: round %d shows * for %s, which has only one value" % (who, n, q))
                for n in range(rounds):
                    if n + 1 < rounds:
                        if (D[n] & ~cpre(D[n + 1])).any():
                            raise Violation("%s: round %d cannot be enforced from round %d" % (who, n + 1, n))
                    elif (D[n] & ~cpre(U[0])).any():
                        raise Violation("%s: the win cannot be enforced from round %d" % (who, n))
                for n in range(1, rounds):
                    for q in sp.inputs + sp.outputs:
                        for cand in (D[n] & lit[q], D[n] & ~lit[q]):
                            if (cand != D[n]).any() and not (D[n - 1] & ~cpre(cand)).any():
                                raise Violation("%s: round %d could be more concrete (%s)" % (who, n, q))
            # last column
            x, vals = cols[rounds]
            B = cpre(U[0])
            if env:
                lose = g.E & ~g.T.any(axis=2)            # (S, I)
                if not x:
                    if set(vals) != set(sp.inputs):
                        raise Violation("environment: the last round does not show one input: %r" % (vals,))
                    i = sum(vals[q] << b for b, q in enumerate(sp.inputs))
                    B = lose[:, i]
                if not c.groups and sp.ni:
                    ok = (lose | ~D[rounds - 1][:, None]).all(axis=0)
                    if ok.any() == x or not x and not ok[i]:
                        raise Violation("environment: the last input is wrong: %r" % (cols[rounds],))
            elif sp.k and not x:
                raise Violation("system: the last round is not X")
            for n in range(rounds - 1, -1, -1):
                B = D[n] & (B if n == rounds - 1 else cpre(B))
            if not B.any():
                raise Violation("%s: the trace does not show a way to win" % who)
            nt = nt or rounds >= 2
            labels.append("%s, %s" % (who, "1 round" if rounds == 1 else "2 rounds" if rounds == 2 else "more rounds"))
        if out.strip():
            raise Violation("unexpected output %r" % out[:300])
        return {"key": sp.text() if nt else None, "nontrivial": nt, "labels": labels + (["groups"] if c.groups else [])}


PROP = P()
