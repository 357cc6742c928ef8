"""C15: the analysis of the initial positions counts and describes the winning and losing positions correctly."""
import re
import numpy as np
from vlib import pbt, gr1, slugs
from vlib.pbt import Violation

TITLES = ["winning positions", "non-winning positions",
          "winning positions satisfying the initialization assumptions", "non-winning positions satisfying the initialization assumptions",
          "winning positions satisfying the initialization guarantees", "non-winning positions satisfying the initialization guarantees",
          "winning positions satisfying the initialization assumptions & guarantees",
          "non-winning positions satisfying the initialization assumptions & guarantees"]


class Case:
    pass


def rename(f, m):
    if f[0] == "v":
        return ("v", m.get(f[1], f[1]), f[2])
    if f[0] == "!":
        return ("!", rename(f[1], m))
    if f[0] in "&|^":
        return (f[0], rename(f[1], m), rename(f[2], m))
    return f


class P(pbt.Prop):
    id = "C15"
    variants = ["slugs"]
    quick_cases = 18000
    thorough_cases = 300000
    rule = ("random specifications, some with number groups (name@0.min.max, name@1) and marked variable limits, with "
            "--analyzeInitialPositions, half of them with --restrictToReachableStates; the six counts are compared with the "
            "reference winning region, and every printed cube must lie inside the described set and meet the considered positions, "
            "TRUE and (none) must be exact; non-trivial: there are winning and non-winning positions and a cube with a literal")
    assumptions = ["which cubes are printed, and how many up to seven, is not specified"]

    def gen(self, tc):
        c = Case()
        sp = gr1.gen_spec(tc, max_in=3, max_out=3)
        if tc.bool(0.5):
            at = [(n, False) for n in sp.inputs + sp.outputs]
            sp.SYS_INIT += tc.list(lambda t: gr1.gen_clause(t, at, 1, 2), 0, 2, 0.6)
            sp.ENV_INIT += tc.list(lambda t: gr1.gen_clause(t, [(n, False) for n in sp.inputs], 1, 2), 0, 2, 0.6)
        c.reach = tc.bool(0.5)
        # number groups
        m, groups = {}, []
        for names, base in ((sp.inputs, "n"), (sp.outputs, "m")):
            if len(names) and tc.bool(0.4):
                lo = tc.choice(len(names))
                w = tc.int(1, len(names) - lo)
                mn = tc.choice(6)
                mx = mn + (1 << w) - 1 - tc.choice(1 << (w - 1))
                m[names[lo]] = "%s@0.%d.%d" % (base, mn, mx)
                for b in range(1, w):
                    m[names[lo + b]] = "%s@%d" % (base, b)
                groups.append((base, mn, mx, [m[x] for x in names[lo:lo + w]]))
        sp2 = gr1.Spec([m.get(n, n) for n in sp.inputs], [m.get(n, n) for n in sp.outputs],
                       **{s: [rename(f, m) for f in getattr(sp, s)] for s in gr1.SECTIONS})
        c.groups, c.limits = groups, []
        for base, mn, mx, bits in groups:
            sec = "ENV_INIT" if base == "n" else "SYS_INIT"
            top = mx - mn
            if top < (1 << len(bits)) - 1:
                # value <= top
                f = ("1",)
                for b, n in enumerate(bits):
                    v = gr1.V(n)
                    f = ("|", ("!", v), f) if top >> b & 1 else ("&", ("!", v), f)
                c.limits.append((sec, f, "@ %s >= %d & @ %s <= %d" % (base, mn, base, mx)))
        if tc.bool(0.15):
            c.limits.append(("SYS_INIT", gr1.gen_clause(tc, [(n, False) for n in sp2.inputs + sp2.outputs], 1, 2), "x"))
        # a limit is a conjunct of its section
        for sec, f, _ in c.limits:
            getattr(sp2, sec).append(f)
        c.sp = sp2
        return c

    def render(self, c):
        sp = c.sp.copy()
        o = []
        for sec, f, txt in c.limits:
            getattr(sp, sec).remove(f)
            o += ["[%s]" % sec, "## Variable limits: " + txt, gr1.to_slugs(f), ""]
        return sp.text() + "\n" + "\n".join(o)

    def check(self, c, ctx):
        sp = c.sp
        f = slugs.write(ctx, "s.slugsin", self.render(c))
        out = slugs.run(ctx, ["--analyzeInitialPositions"] + (["--restrictToReachableStates"] if c.reach else []) + [f]).out
        g = gr1.Game(sp)
        win = g.winning()
        ie, js = g.initEnv, g.initSys
        lim = np.ones(g.S, dtype=bool)
        for _, fm, _ in c.limits:
            lim &= sp.arr(fm)[:, 0, 0]
        if c.reach:
            R = ie & js
            step = (g.E[:, :, None] & g.T).reshape(g.S, g.S)
            while True:
                N = R | step[R].any(axis=0)
                if (N == R).all():
                    break
                R = N
            lim &= R

        def byin(a):
            return a.reshape(g.I, g.O).any(axis=1)
        li = byin(lim)
        ei = ie.reshape(g.I, g.O)[:, 0]
        want = [((win & lim).sum(), lim.sum()), ((win & lim & ie).sum(), (lim & ie).sum()),
                ((win & lim & js).sum(), (lim & js).sum()), ((win & lim & js & ie).sum(), (lim & js & ie).sum()),
                ((ei & li).sum(), li.sum()), ((ei & li & ~byin(win & js)).sum(), li.sum())]
        labels = ["Number of winning positions: ", "Number of winning positions satisfying the initialization assumptions: ",
                  "Number of winning positions satisfying the initialization guarantees: ",
                  "Number of winning positions satisfying the initialization assumptions and guarantees: ",
                  "Number of initial input assignments that are allowed for the environment: ",
                  "Number of initial input assignments that force the system to move to a losing position: "]
        lines = out.split("\n")
        for i, (l, (a, b)) in enumerate(zip(labels, want)):
            if lines[i] != "%s%d out of %d" % (l, a, b):
                raise Violation("expected %s%d out of %d, got %r" % (l, a, b, lines[i]))
        sets = [win, ~win, win & ie, ~win & ie, win & js, ~win & js, win & ie & js, ~win & ie & js, win & ~g.E.any(axis=1)]
        heads = ["Some cubes of %s:" % t for t in TITLES] + \
                ["Some positions from which the environment player cannot prevent to violate some safety assumptions:"]
        sec, cur = [], None
        for l in lines[6:]:
            if l.startswith("Some "):
                cur = []
                sec.append((l.strip(), cur))
            elif l.strip():
                if cur is None:
                    raise Violation("unexpected line %r" % l)
                cur.append(l.strip())
        if [t for t, _ in sec] != heads:
            raise Violation("unexpected section titles %r" % [t for t, _ in sec])
        bit = {n: sp.bit(n, True) for n in sp.inputs + sp.outputs}
        num = {base: (mn, bits) for base, mn, mx, bits in c.groups}
        grouped = {n for _, _, _, bits in c.groups for n in bits}
        idx = np.arange(g.S)
        literal = False
        for (t, cubes), st in zip(sec, sets):
            full, none = bool((st | ~lim).all()), not (st & lim).any()
            if full or none:
                if cubes not in ([["- TRUE"]] if full else []) + ([["--(none)"]] if none else []):
                    raise Violation("%r: %r printed, but the set is %s" % (t, cubes, "everything" if full else "empty"))
                continue
            if not 1 <= len(cubes) <= 7 or len(set(cubes)) != len(cubes):
                raise Violation("%r: %r is printed" % (t, cubes))
            for l in cubes:
                if l[:1] != "-" or l in ("- TRUE", "--(none)"):
                    raise Violation("%r: %r is printed" % (t, l))
                m = np.ones(g.S, dtype=bool)
                seen, wide = set(), False
                for x in l[1:].split():
                    k = re.fullmatch(r"(\w+)=(\d+)", x)
                    if k and k.group(1) in num:
                        mn, bits = num[k.group(1)]
                        val = int(k.group(2)) - mn
                        if not 0 <= val < 1 << len(bits):
                            raise Violation("%r: value out of range in %r" % (t, l))
                        name = k.group(1)
                        wide = True
                        for b, n in enumerate(bits):
                            m &= (idx >> bit[n] & 1) == (val >> b & 1)
                    else:
                        name = x.lstrip("!")
                        if name not in bit or name in grouped or x not in (name, "!" + name):
                            raise Violation("%r: unexpected literal in %r" % (t, l))
                        m &= (idx >> bit[name] & 1) == (0 if x[0] == "!" else 1)
                    if name in seen:
                        raise Violation("%r: %r mentions %s twice" % (t, l, name))
                    seen.add(name)
                    literal = True
                if (m & lim & ~st).any():
                    raise Violation("%r: %r contains position <%s>, which does not belong to the set"
                                    % (t, l, sp.state_str(int(np.flatnonzero(m & lim & ~st)[0]))))
                if not wide and not (m & lim).any():
                    raise Violation("%r: %r contains no considered position" % (t, l))
        labels = ["groups"] if c.groups else []
        labels += ["limits"] if c.limits else []
        labels += ["reachable"] if c.reach else []
        nt = bool((win & lim).any() and (~win & lim).any() and literal)
        return {"key": self.render(c) + str(c.reach), "nontrivial": nt, "labels": labels}


PROP = P()
