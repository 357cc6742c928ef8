"""C23: the belief space abstraction for incomplete information is sound, most permissive and described correctly."""
import re
import numpy as np
from vlib import pbt, gr1, slugs, slugsin
from vlib.pbt import Violation
from props.c15 import rename


class Case:
    pass


def swap_all(a, k):
    """pre <-> post of an array with 2k axes"""
    return a.transpose(list(range(k, 2 * k)) + list(range(k)))


class P(pbt.Prop):
    id = "C23"
    variants = ["slugs"]
    quick_cases = 60000
    thorough_cases = 800000
    rule = ("random domains with observable, unobservable and controllable inputs and estimator outputs (some named min_/max_, some "
            "number groups) with --computeIncompleteInformationEstimator; the printed formulas are read back and compared as truth "
            "tables with the abstraction computed on explicit sets, the dead-end warnings and the intervals of the difference "
            "analysis with the explicit transition set; non-trivial: there is an unobservable input, and the strategy formula is not "
            "constant")
    assumptions = ["min_/max_ propositions are fixed in reverse order of their declaration (most significant bits first)"]

    def gen(self, tc):
        c = Case()
        nu, nob, nc = tc.weighted([(5, 1), (3, 2), (1, 0)]), tc.weighted([(4, 1), (2, 2), (1, 0)]), tc.weighted([(4, 0), (2, 1)])
        ne = tc.weighted([(3, 2), (2, 1), (2, 3)])
        if nu + nob + nc + ne > 6:
            nc, ne = 0, 2
        c.obs, c.unobs, c.ctl = ["a", "b"][:nob], ["u", "v"][:nu], ["k"][:nc]
        est = ["x", "y", "z"][:ne]
        m, groups = {}, []

        def group(names, base, post):
            w = tc.int(1, len(names))
            mn = tc.choice(5)
            mx = mn + (1 << w) - 1 - tc.choice(1 << (w - 1))
            m[names[0]] = "%s@0.%d.%d" % (base, mn, mx)
            for b in range(1, w):
                m[names[b]] = "%s@%d" % (base, b)
            groups.append((base, mn, mx, [m[x] for x in names[:w]], post))
        if tc.bool(0.45):
            group(est, tc.pick(["min_p", "max_p", "p"]), True)
        if tc.bool(0.3):
            left = [e for e in est if e not in m]
            if left:
                group(left, tc.pick(["max_q", "min_q", "q"]), True)
        if tc.bool(0.35):
            pool = tc.pick([c.obs, c.unobs, c.ctl])
            if pool:
                group(pool, "n", False)
        for e in est:
            if e not in m and tc.bool(0.4):
                m[e] = tc.pick(["min_", "max_"]) + e
        ren = lambda l: [m.get(n, n) for n in l]
        c.obs, c.unobs, c.ctl, est = ren(c.obs), ren(c.unobs), ren(c.ctl), ren(est)
        c.groups = groups
        sp = gr1.Spec(c.obs + c.unobs + c.ctl, est)
        ins = sp.inputs
        pi, po, qi, qo = ([(n, p) for n in l] for l, p in ((ins, False), (est, False), (ins, True), (est, True)))
        sp.ENV_INIT = tc.list(lambda t: gr1.gen_clause(t, pi, 1, 2), 0, 2, 0.6)
        sp.SYS_INIT = tc.list(lambda t: gr1.gen_clause(t, pi + po, 1, 2), 0, 3, 0.7)
        uq = [(n, True) for n in c.unobs] + [(n, False) for n in c.unobs]
        sp.ENV_TRANS = tc.list(lambda t: gr1.gen_constraint(t, pi + qi + qi + uq + po[:1]), 0, 4, 0.75)
        sp.SYS_TRANS = tc.list(lambda t: gr1.gen_constraint(t, pi + po + qi + qo + qo + qo + uq), 0, 4, 0.75)
        c.sp = sp
        c.order = tc.shuffle(["obs", "unobs", "ctl", "est"]) if tc.bool(0.5) else ["obs", "unobs", "ctl", "est"]
        return c

    def render(self, c):
        heads = {"obs": "[OBSERVABLE_INPUT]", "unobs": "[UNOBSERVABLE_INPUT]", "ctl": "[CONTROLLABLE_INPUT]", "est": "[OUTPUT]"}
        o = []
        for k in c.order:
            o += [heads[k]] + (c.sp.outputs if k == "est" else getattr(c, k)) + [""]
        for s in gr1.SECTIONS[:4]:
            o += ["[%s]" % s] + [gr1.to_slugs(f) for f in getattr(c.sp, s)] + [""]
        return "\n".join(o)

    def check(self, c, ctx):
        sp = c.sp
        k = sp.k
        f = slugs.write(ctx, "s.slugsin", self.render(c))
        r = slugs.run(ctx, ["--computeIncompleteInformationEstimator", f])
        lines = [l for l in r.out.splitlines() if l.strip() and not l.startswith("#")]
        if len(lines) != 4 or lines[0] != "[SYS_TRANS]" or lines[2] != "[ENV_TRANS]":
            raise Violation("unexpected output %r" % r.out[-300:])
        names = {}
        for n in sp.inputs:
            names[n], names[n + "'"] = "I", "I'"
        for n in sp.outputs:
            names[n], names[n + "'"] = "O", "O'"
        try:
            fs, fe = (slugsin.formula(l, names, ("I", "O", "I'", "O'")) for l in (lines[1], lines[3]))
        except slugsin.FormatError as e:
            raise Violation("the printed formula cannot be read (%s): %r" % (e, lines))
        shape = [2] * (2 * k)
        ax = {}
        for n in sp.inputs + sp.outputs:
            for p in (False, True):
                ax[n, p] = 2 * k - 1 - sp.bit(n, p)
        A = lambda l: sp.conj(l).reshape(shape)
        pre = tuple(range(k))
        post = tuple(range(k, 2 * k))
        E, S = A(sp.ENV_TRANS), A(sp.SYS_TRANS)
        I = A(sp.ENV_INIT + sp.SYS_INIT)

        def closure(R, step):
            while True:
                N = R | swap_all(np.broadcast_to((R & step).any(axis=pre, keepdims=True), shape), k)
                if (N == R).all():
                    return R
                R = N
        un = tuple(ax[n, p] for n in c.unobs for p in (False, True))
        ep = tuple(ax[n, True] for n in sp.outputs)
        R1 = closure(I, E & S)
        st = ~(R1 & E & ~S).any(axis=un, keepdims=True) if un else ~(R1 & E & ~S)
        st = np.broadcast_to(st, shape).copy()
        order = []
        for kk in c.order:
            order += sp.outputs if kk == "est" else []
        for n in reversed(order):
            if n[:4] in ("min_", "max_"):
                sel = np.zeros([2 if i == ax[n, True] else 1 for i in range(2 * k)], dtype=bool)
                sel.reshape(-1)[1 if n[:4] == "min_" else 0] = True
                st &= ~(st & sel).any(axis=ep, keepdims=True) | sel
        got = sp.arr(fs).reshape(shape)

        def where(a):
            i = np.argwhere(a)[0]
            return ", ".join("%s%s:%d" % (n, "'" if p else "", i[x]) for (n, p), x in sorted(ax.items(), key=lambda t: t[1]))
        for n, p in gr1.atoms_of(fs) | gr1.atoms_of(fe):
            if n in c.unobs:
                raise Violation("a printed formula mentions the unobservable %s" % n)
        if (got & ~st).any():
            raise Violation("the estimator may do something wrong: <%s>" % where(got & ~st))
        if (st & ~got).any():
            raise Violation("the estimator is not permitted to do something right: <%s>" % where(st & ~got))
        R2 = closure(I, E & S & st)
        rest = un + ep + tuple(ax[n, True] for n in c.ctl)
        ass = np.broadcast_to((R2 & E).any(axis=rest, keepdims=True), shape)
        ga = sp.arr(fe).reshape(shape)
        if (ass != ga).any():
            raise Violation("the assumption is wrong for <%s>" % where(ass != ga))
        step = E & ass & st
        R3 = closure(I, step)
        d1 = ~ass.any(axis=post, keepdims=True) & R3
        d2 = ~d1 & ~st.any(axis=ep, keepdims=True) & R3
        for t, d in (("environment", d1), ("system", d2)):
            if ("WARNING! There are %s dead-ends in the abstraction!" % t in r.err) != bool(d.any()):
                raise Violation("%s dead ends %s, but slugs says otherwise" % (t, "exist" if d.any() else "do not exist"))
        if ("There is no initial state" in r.err) != (not I.any()):
            raise Violation("warning about the initial state is wrong")
        # differences
        tr = step & R3
        exp = {}

        def value(bits, p):
            v = np.zeros(shape, dtype=int)
            for b, n in enumerate(bits):
                s = [1] * (2 * k)
                s[ax[n, p]] = 2
                v = v + np.arange(2).reshape(s) * (1 << b)
            return v
        for base, mn, mx, bits, _ in c.groups:
            for p in (False, True):
                for b2, mn2, mx2, bits2, e2 in c.groups:
                    if e2 and not (base == b2 and p):
                        v1, v2 = value(bits, p) + mn, value(bits2, True) + mn2
                        ok = tr & (v1 <= mx) & (v2 <= mx2)
                        d = (v2 - v1)[ok]
                        exp["%s'= %s%s" % (b2, base, "'" if p else "")] = \
                            "[%d,%d]" % ((d.min(), d.max()) if d.size else (2147483647, -2147483648))
        gotd = dict(re.findall(r"^(\S+'= \S+) \+ (\[-?\d+,-?\d+\])$", r.err, re.M))
        if gotd != exp:
            raise Violation("the difference analysis is %r instead of %r" % (gotd, exp))
        nt = bool(c.unobs) and bool(st.any()) and not st.all()
        labels = (["groups"] if c.groups else []) + (["dead ends"] if d1.any() or d2.any() else [])
        return {"key": self.render(c) if nt else None, "nontrivial": nt, "labels": labels}


PROP = P()
