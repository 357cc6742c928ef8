"""C26: structured slugs formulas are translated to equivalent slugsin formulas."""
import os
import numpy as np
from vlib import pbt, slugsin, slugs
from vlib import structured as S
from vlib.pbt import Violation

BAD = ["a -", "n - 1 = 0", "n * 2 = 4", "G a", "F a", "a U b", "<> a", "a &", "& a", "(a", "a)", "a b", "unknown1 & unknown2",
       "n", "n & a", "a = 1", "n = = 2", "next next a", "X (a' | b)", "X (n' = 1)", "a + 1", "zz = 1", "a -> ", "1", "a <- b", "a % b", "n / 2 = 1",
       "TRUE FALSE", "next", "'", "! ", "n <", "a ? b", "( )"]


class Case:
    pass


class P(pbt.Prop):
    id = "C26"
    variants = []
    quick_cases = 90000
    thorough_cases = 1500000
    rule = ("random formulas over Boolean and integer variables (ranges with minimum 0 to 16, sums, comparisons, all spellings of the "
            "operators, as few brackets as the documented precedence allows, next operators and primes) in random sections, "
            "translated by the compiler and compared with the integer semantics on all or 512 random assignments of the bits; or "
            "a line outside the supported language, which has to be refused; non-trivial: a comparison with a variable occurs")
    assumptions = ["an integer variable whose bits encode a number above its maximum has the value minimum + bits"]

    def setup(self, ctx):
        self.comp = S.Compiler()

    def gen(self, tc):
        c = Case()
        c.v = S.gen_vars(tc, 12)
        c.lines = []
        for _ in range(tc.int(1, 4)):
            sec = tc.pick(["ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"])
            f = S.gen(tc, c.v, "INIT" not in sec, tc.int(0, 3))
            t = S.show(tc, f)
            while t.startswith("["):
                t = "(" + t + ")"
            if tc.bool(0.1):
                t = t.replace(" ", tc.pick(["  ", "\t"]))
            c.lines.append((sec, f, t))
        c.bad = tc.pick(BAD) if tc.bool(0.06) else None
        c.badsec = tc.pick(["SYS_TRANS", "ENV_INIT", "SYS_LIVENESS"])
        c.badlow = tc.bool(0.5)
        return c

    def text(self, c):
        o = []
        for s in ("INPUT", "OUTPUT"):
            o.append("[%s]" % s)
            for n, t in c.v.bools:
                if t == s:
                    o.append(n)
            for n, lo, hi, t in c.v.ints:
                if t == s:
                    o.append("%s:%d...%d" % (n, lo, hi))
        for s in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"):
            ls = [t for s2, _, t in c.lines if s2 == s]
            if c.bad is not None and s == c.badsec:
                ls.append(self.badline(c))
            if ls:
                o += ["[%s]" % s] + ls
        return "\n".join(o) + "\n"

    def badline(self, c):
        b = [n for n, _ in c.v.bools] + ["undeclared"] * 2
        n = c.v.ints[0][0] if c.v.ints else "undeclared"
        m = {"a": b[0], "b": b[1], "n": n}
        def one(t):
            if len(t) > 1 and t.endswith("'"):
                return m.get(t[:-1], t[:-1]) + "'"
            return m.get(t, t)
        return " ".join(one(t) for t in c.bad.split(" "))

    def render(self, c):
        return self.text(c)

    def check(self, c, ctx):
        text = self.text(c)
        path = slugs.write(ctx, "s.structuredslugs", text)
        out, err = self.comp.run(path)
        if c.bad is not None:
            bl = self.badline(c)
            if c.bad in ("1",):
                ok = out is not None        # also a constraint in the slugsin format
                if not ok:
                    raise Violation("%r is refused: %s" % (bl, err))
            elif out is not None:
                raise Violation("%r is not a formula, but translated to:\n%s" % (bl, out))
            return {"key": text, "nontrivial": True, "labels": ["refused: " + c.bad]}
        if out is None:
            raise Violation("refused: %s" % err)
        v = c.v
        bits = [n for n, _ in v.bools] + [b for n, _, _, _ in v.ints for b in v.bitnames(n)]
        names = {}
        for b in bits:
            names[b] = "I"
            names[b + "'"] = "I'"
        cols = [(b, p) for b in bits for p in (False, True)]
        if len(cols) <= 9:
            idx = np.arange(1 << len(cols))
            table = {x: (idx >> i & 1).astype(bool) for i, x in enumerate(cols)}
        else:
            rng = np.random.default_rng(abs(hash(text)) % (1 << 32) if False else sum(map(ord, text)))
            table = {x: rng.integers(0, 2, 512).astype(bool) for x in cols}
        val = lambda n, p: table[(n, bool(p))]
        sections, cur = {}, None
        for l in out.split("\n"):
            l = l.strip()
            if l.startswith("["):
                cur = sections.setdefault(l, [])
            elif l and not l.startswith("#"):
                if cur is None:
                    raise Violation("line %r outside of a section" % l)
                cur.append(l)
        for s in ("ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"):
            mine = [(f, t) for s2, f, t in c.lines if s2 == s]
            got = sections.get("[%s]" % s, [])
            if len(got) < len(mine):
                raise Violation("section %s: %d constraints became %d" % (s, len(mine), len(got)))
            for (f, t), l in zip(mine, got):
                try:
                    g = slugsin.formula(l, names, ("I", "I'"))
                except slugsin.FormatError as e:
                    raise Violation("%r is translated to %r, which is malformed (%s)" % (t, l, e))
                a, b = S.ev(f, v, val), S.ev_slugs(g, val)
                bad = np.nonzero(np.broadcast_to(a != b, table[cols[0]].shape if cols else (1,)))[0]
                if len(bad):
                    k = bad[0]
                    raise Violation("%r is translated to %r; they differ for %s (expected %s)" % (
                        t, l, {n + ("'" if p else ""): int(table[(n, p)][k]) for n, p in cols}, bool(np.broadcast_to(a, max(1, len(idx) if len(cols) <= 9 else 512))[k])))
        cmp = any("@" in l for s in sections for l in sections[s] if s not in ("[INPUT]", "[OUTPUT]"))
        return {"key": text, "nontrivial": cmp, "labels": ["lsb" if "LEAST" in text else "no lsb", "minimum above 0" if any(
            i[1] for i in v.ints) else "minimum 0"] + (["next operator"] if any(x in text for x in ("next ", "X ", "()")) else [])}


PROP = P()
