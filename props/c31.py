"""C31: the translators from the formats of LTLMop and RATSY keep the meaning of the properties."""
import itertools
import numpy as np
from vlib import pbt, slugs, slugsin, jython
from vlib import structured as S
from vlib.pbt import Violation

NAMES = ["a", "b", "req0", "req1", "bit_0", "Xtra", "Fx", "Go", "r.1", "wait", "U2", "x_next"]
OPS = {"&": ["&", "&&", "*", "/\\"], "|": ["|", "||", "+", "\\/"], "->": ["->", "-->"], "<->": ["<->", "<-->"]}
NEXT, GLOB, FIN, NOT = ["next", "X", "()"], ["[]", "G"], ["<>", "F"], ["!", "~"]
LEVEL = {"<->": 0, "->": 1, "^": 2, "|": 3, "&": 4}


class Case:
    pass


class P(pbt.Prop):
    id = "C31"
    variants = []
    quick_cases = 24000
    thorough_cases = 400000
    rule = ("random sets of initial, safety and liveness properties over up to 3+3 propositions in all spellings of the operators, as "
            "LTLMop files (SMV and LTL) or RATSY files with any order and repetition of sections and conjunctions; the meaning of every "
            "translated section is compared on all valuations; 8% with properties outside the supported fragment; non-trivial: at least "
            "three properties and a next operator")
    assumptions = ["Jython runs the Python 2 scripts as Python 2 does"]

    def setup(self, ctx):
        self.tools = jython.Tools(ctx)

    def teardown(self, ctx):
        self.tools.stop()

    # ------------------------------------------------------------------ generator
    def form(self, tc, pre, post, depth):
        """formulas over (name, primed)"""
        if depth == 0 or not (pre or post) or tc.bool(0.15):
            if not (pre or post) or tc.bool(0.06):
                return (tc.pick("01"),)
            return ("b",) + tc.pick([(n, False) for n in pre] + [(n, True) for n in post])
        k = tc.weighted([(3, "!"), (4, "&"), (4, "|"), (2, "->"), (2, "<->"), (3 if post else 0, "next")])
        if k == "!":
            return ("!", self.form(tc, pre, post, depth - 1))
        if k == "next":
            return ("next", self.form(tc, post, [], depth - 1))
        if k in "&|":
            return (k, [self.form(tc, pre, post, depth - 1) for _ in range(tc.weighted([(4, 2), (1, 3)]))])
        return (k, self.form(tc, pre, post, depth - 1), self.form(tc, pre, post, depth - 1))

    def atom(self, c, tc, n):
        if c.ratsy:
            return n
        return ("e." if n in c.inp else "s.") + n

    def show(self, c, tc, f, level=0, unary=False):
        """level: the weakest operator that needs no brackets here"""
        sp = tc.pick(["", " "])
        if f[0] in "01":
            return "TRUE" if f[0] == "1" else "FALSE"
        if f[0] == "b":
            n = self.atom(c, tc, f[1])
            if c.ratsy:
                t = "%s%s=%s1" % (n, sp, sp)
            else:
                t = n
            if f[2]:
                return tc.pick(NEXT[:2]) + " " * (not c.ratsy or True) + "(" + t + ")"
            return t
        if f[0] == "!":
            if c.ratsy and f[1][0] == "b" and not f[1][2] and tc.bool(0.7):
                return "%s%s=%s0" % (f[1][1], sp, sp)
            return tc.pick(NOT) + sp + self.show(c, tc, f[1], 9)
        if f[0] == "next":
            return tc.pick(NEXT) + " " + self.brackets(tc, self.show(c, tc, f[1]))
        lv = LEVEL[f[0]]
        parts = f[1] if f[0] in "&|" else [f[1], f[2]]
        op = tc.pick(OPS[f[0]])
        # chains of implications and equivalences are always bracketed
        t = (" " + op + " ").join(self.show(c, tc, x, lv + 1) for x in parts)
        return self.brackets(tc, t) if level > lv or tc.bool(0.15) else t

    def brackets(self, tc, t):
        return "[ " + t + "]" if tc.bool(0.1) else "(" + tc.pick(["", " "]) + t + ")"

    def prop(self, c, tc, kind, f):
        if kind == "INIT":
            return self.brackets(tc, self.show(c, tc, f))
        g = tc.pick(GLOB) + tc.pick(["", " "])
        if kind == "LIVENESS":
            g += " " * (g == "G")
            return g + tc.pick(["%s%s", "(%s%s)"]) % (tc.pick(FIN) + " ", self.brackets(tc, self.show(c, tc, f)))
        return g + self.brackets(tc, self.show(c, tc, f))

    def gen(self, tc):
        c = Case()
        c.ratsy = tc.bool(0.5)
        names = tc.shuffle([n for n in NAMES])
        ni, no = tc.int(0, 3), tc.int(0, 3)
        c.inp, c.outp = names[:ni], names[ni:ni + no]
        c.props = {}
        c.bad = None
        allv = c.inp + c.outp
        for side in ("ENV", "SYS"):
            l = []
            for _ in range(tc.weighted([(1, 0), (2, 1), (3, 2), (3, 3), (2, 5)])):
                kind = tc.pick(["INIT", "TRANS", "TRANS", "LIVENESS"])
                pre = c.inp if side == "ENV" and kind == "INIT" else allv
                post = [] if kind != "TRANS" else c.inp if side == "ENV" else allv
                f = self.form(tc, pre, post, tc.int(0, 3))
                l.append((kind, f))
            c.props[side] = l
        if tc.bool(0.08):
            c.bad = tc.pick(["F a", "U", "nested next", "GG", "xor", "syntax", "section"])
        c.text = self.text(c, tc)
        return c

    def badprop(self, c, tc):
        n = self.atom(c, tc, c.inp[0]) + ("=1" if c.ratsy else "")
        return {"F a": "F(%s)" % n, "U": "G((%s) U (%s))" % (n, n), "nested next": "G(next(! next(%s)))" % n, "GG": "G(! G(%s))" % n,
                "syntax": "G((%s)" % n, "xor": None, "section": None}[c.bad]

    def text(self, c, tc):
        if c.bad and not c.inp:
            c.bad = None
        if not c.ratsy:
            if c.bad in ("section",):
                c.bad = "syntax"
            smv = ["-- header", "MODULE main", "  VAR", "    e : env(s);"[:0], "MODULE env -- inputs", "  VAR"]
            smv += ["    %s : boolean;" % n for n in c.inp] + ["", "MODULE sys -- outputs", "  VAR"] + ["    %s : boolean;" % n for n in c.outp]
            ltl = ["-- a file"]
            for side, head in (("ENV", "Assumptions"), ("SYS", "Guarantees")):
                ls = [self.prop(c, tc, k, f) for k, f in c.props[side]]
                if side == "SYS" and c.bad and self.badprop(c, tc):
                    ls.append(self.badprop(c, tc))
                if not ls:
                    ls = ["TRUE"]
                sep = tc.pick([" &", " &\n", " && "])
                t = sep.join(ls)
                ltl += ["LTLSPEC -- " + head] + (["\t(", "\t" + t, "\t);"] if tc.bool(0.7) else [t + ";"])
                ltl += [""] * tc.choice(2)
            return "\n".join(smv) + "\n", "\n".join(ltl) + "\n"
        secs = [("[INPUT_VARIABLES]", [n for n in c.inp]), ("[OUTPUT_VARIABLES]", [n for n in c.outp])]
        for side in ("ENV", "SYS"):
            for kind, nm in (("INIT", "INITIAL"), ("TRANS", "TRANSITIONS"), ("LIVENESS", "FAIRNESS")):
                ls = [self.prop(c, tc, k, f) for k, f in c.props[side] if k == kind]
                if len(ls) > 1 and tc.bool(0.3):
                    ls = [ls[0] + " " + tc.pick(OPS["&"]) + " " + ls[1]] + ls[2:]
                if side == "SYS" and kind == "TRANS" and c.bad and self.badprop(c, tc):
                    ls.append(self.badprop(c, tc))
                secs.append(("[%s_%s]" % (side, nm), ls))
        secs = [x for x in secs if x[1] or tc.bool(0.6)]
        if c.bad == "section":
            secs.append(("[ENV_TRANS]", ["G(TRUE)"]))
        if tc.bool(0.3):
            secs = tc.shuffle(secs)
        out = ["# a comment"] * tc.choice(2)
        for s, ls in secs:
            out.append(s)
            for l in ls:
                # lines that start with "[" are section names
                l = "(" + l + ")" if l.startswith("[") else l
                out.append(l + ";" if tc.bool(0.8) else l + " ;")
            if tc.bool(0.3):
                out.append(tc.pick(["", "# comment"]))
        return None, "\n".join(out) + "\n"

    def render(self, c):
        return "".join(x for x in c.text if x)

    # ------------------------------------------------------------------ oracle
    def check(self, c, ctx):
        ltl = slugs.write(ctx, "s.ltl", c.text[1])
        if c.ratsy:
            r = self.tools.run("translateFromRatsyFormatToSlugsFormat.py", [ltl], timeout=60)
        else:
            r = self.tools.run("translateFromLTLMopLTLFormatToSlugsFormat.py", [slugs.write(ctx, "s.smv", c.text[0]), ltl], timeout=60)
        label = "ratsy" if c.ratsy else "ltlmop"
        if c.bad and c.bad != "xor":
            if r.rc == 0:
                raise Violation("a property outside of the fragment (%s) is translated to\n%s" % (c.bad, r.out))
            return {"key": self.render(c), "nontrivial": False, "labels": [label, "refused"]}
        if r.rc != 0:
            raise Violation("refused: %s" % r.err[-800:])
        got, cur = {}, None
        for l in r.out.split("\n"):
            l = l.strip()
            if l.startswith("["):
                cur = got.setdefault(l[1:-1], [])
            elif l:
                if cur is None:
                    raise Violation("unexpected line %r" % l)
                cur.append(l)
        if got.get("INPUT", []) != c.inp or got.get("OUTPUT", []) != c.outp:
            raise Violation("declared are %r and %r instead of %r and %r" % (got.get("INPUT"), got.get("OUTPUT"), c.inp, c.outp))
        cols = [(n, p) for n in c.inp + c.outp for p in (False, True)]
        idx = np.arange(1 << len(cols))
        table = {x: (idx >> i & 1).astype(bool) for i, x in enumerate(cols)}
        n = len(idx)
        val = lambda b, p: table[(b, bool(p))]
        names = {}
        for s, l in (("I", c.inp), ("O", c.outp)):
            for b in l:
                names[b], names[b + "'"] = s, s + "'"

        def ref(f, primed=False):
            k = f[0]
            if k in "01":
                return np.full(n, k == "1")
            if k == "b":
                return val(f[1], f[2] or primed)
            if k == "!":
                return ~ref(f[1], primed)
            if k == "next":
                return ref(f[1], True)
            if k == "&":
                return np.logical_and.reduce([ref(x, primed) for x in f[1]])
            if k == "|":
                return np.logical_or.reduce([ref(x, primed) for x in f[1]])
            a, b = ref(f[1], primed), ref(f[2], primed)
            return ~a | b if k == "->" else a == b
        nx = 0
        for side in ("ENV", "SYS"):
            for kind in ("INIT", "TRANS", "LIVENESS"):
                fs = [f for k, f in c.props[side] if k == kind]
                forms = []
                for l in got.pop("%s_%s" % (side, kind), []):
                    try:
                        forms.append(np.broadcast_to(S.ev_slugs(slugsin.formula(l, names, ("I", "I'", "O", "O'")), val), (n,)))
                    except slugsin.FormatError as e:
                        raise Violation("section %s_%s: %r is malformed (%s)" % (side, kind, l, e))
                if kind == "LIVENESS":
                    ok = len(fs) == len(forms)
                    for f, g in zip(fs, forms):
                        ok = ok and ((ref(f) == g).all() or (ref(f, True) == g).all())
                else:
                    a, b = np.ones(n, bool), np.ones(n, bool)
                    for f in fs:
                        a = a & ref(f)
                    for g in forms:
                        b = b & g
                    ok = (a == b).all()
                if not ok:
                    raise Violation("the properties %r of %s_%s become something else:\n%s" % (fs, side, kind, r.out))
        got.pop("INPUT", None)
        got.pop("OUTPUT", None)
        if got:
            raise Violation("additional sections %r" % sorted(got))
        t = self.render(c)
        return {"key": t, "nontrivial": sum(map(len, c.props.values())) >= 3 and any(x in t for x in NEXT), "labels": [label]}


PROP = P()
