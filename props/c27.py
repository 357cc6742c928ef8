"""C27: structured specifications: declarations, ranges and sections are translated faithfully."""
import resource, subprocess, sys, re
import numpy as np
from vlib import pbt, slugsin, slugs, gr1, build
from vlib import structured as S
from vlib.pbt import Violation

SECS = ["ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"]
BADDECL = ["n:3...1", "n:0..3", "n:a...3", "n:0...", "n:0...3:4", "x'", "x@1", "n:-1...2", "n:-3...-1", "n:...3", "n:1.5...2", "n: 0 - 3"]


class Case:
    pass


class P(pbt.Prop):
    id = "C27"
    variants = ["slugs"]
    quick_cases = 40000
    thorough_cases = 700000
    rule = ("random structured specifications (Boolean and integer declarations with all kinds of ranges, comments, blank lines, sections "
            "in any order and repeated, structured and Polish constraints, both modes of the compiler): declared bits, the meaning of "
            "every section including the range limits, the number and order of liveness constraints, and the verdict of slugs against the "
            "reference game; 7% faulty declarations or command lines; non-trivial: an integer variable is declared")
    assumptions = ["the meaning of constraints is compared on up to 4096 (all, if possible) assignments of the bits"]

    def setup(self, ctx):
        self.comp = S.Compiler()

    def gen(self, tc):
        c = Case()
        c.io = ("INPUT", "OUTPUT")
        if tc.bool(0.08):
            c.io = ("OBSERVABLE_INPUT", "UNOBSERVABLE_INPUT", "CONTROLLABLE_INPUT", "OUTPUT")
        c.v = S.gen_vars(tc, tc.pick([4, 6, 6, 10]), maxint=tc.pick([4, 10, 18]), sections=c.io)
        c.lines = {s: [] for s in SECS}
        ins = [x for x in c.v.bools if x[1].endswith("INPUT")]
        for s in SECS:
            v = S.Vars()
            env = s in ("ENV_INIT",)
            v.bools = ins if env else c.v.bools
            v.ints = [x for x in c.v.ints if x[3].endswith("INPUT")] if env else c.v.ints
            for _ in range(tc.weighted([(3, 0), (4, 1), (2, 2)])):
                f = S.gen(tc, v, False, tc.int(0, 2))
                if "INIT" not in s and tc.bool(0.7):
                    # next values: of the inputs only in ENV_TRANS
                    w = v
                    if s == "ENV_TRANS":
                        w = S.Vars()
                        w.bools = ins
                        w.ints = [x for x in c.v.ints if x[3].endswith("INPUT")]
                    if w.bools or w.ints:
                        g = ("next", S.gen(tc, w, False, 1))
                        f = (tc.pick(["->", "<->"]), f, g) if tc.bool(0.7) else g
                t = S.show(tc, f)
                if t.startswith("["):
                    t = "(" + t + ")"
                if tc.bool(0.12):
                    # the slugsin format is understood, too
                    b = [n for n, sec in v.bools]
                    if len(b) > 1:
                        f = ("|", [("!", ("b", b[0], False)), ("b", b[1], False)])
                        t = "| ! %s %s" % (b[0], b[1])
                c.lines[s].append((f, t))
        c.thorough = tc.bool(0.3)
        blocks = [(s, list(c.lines[s])) for s in SECS if c.lines[s]]
        if tc.bool(0.4):
            blocks = tc.shuffle(blocks)
        out = []

        def noise():
            while tc.bool(0.15):
                out.append(tc.pick(["", "  ", "# a comment", "#", "# [INPUT] & (", "  # x = 1"]))
        noise()
        decl = []
        for s in c.io:
            decl.append((s, [(n, n) for n, t in c.v.bools if t == s] +
                         [(n, "%s:%d...%d" % (n, lo, hi) if tc.bool(0.7) else "%s : %d ... %d" % (n, lo, hi)) for n, lo, hi, t in c.v.ints if t == s]))
        if tc.bool(0.3):
            decl.reverse()
        c.bad = None
        if tc.bool(0.05):
            c.bad = tc.pick(BADDECL)
        c.cli = tc.pick(["ok", "ok", "option", "no file", "missing", "two files"]) if tc.bool(0.012) else None
        order = {}
        alls = [("D",) + d for d in decl] + [("C",) + b for b in blocks]
        if tc.bool(0.2):
            alls = tc.shuffle(alls)
        for kind, s, ls in alls:
            out.append("[%s]" % s)
            if kind == "D":
                ls = tc.shuffle(ls)
                order[s] = [n for n, _ in ls]
                ls = [d for _, d in ls]
                if c.bad and s.endswith("PUT") and s == c.io[0]:
                    ls.insert(tc.choice(len(ls) + 1), c.bad)
            else:
                ls = [t for _, t in ls]
            for l in ls:
                noise()
                out.append((tc.pick(["", " ", "\t"]) if tc.bool(0.1) else "") + l)
            noise()
        c.order = order
        c.text = "\n".join(out) + "\n"
        return c

    def render(self, c):
        return ("thorough " if c.thorough else "") + (str(c.cli) if c.cli else "") + "\n" + c.text

    def cli(self, c, ctx, path, out):
        cmd = ["/usr/bin/python3", S.DIR + "/compiler.py"]
        args = (["--thorougly"] if c.thorough else []) + [path]
        if c.cli == "option":
            args.append("--thoroughly")
        if c.cli == "no file":
            args = []
        if c.cli == "missing":
            args = [path + ".missing"]
        if c.cli == "two files":
            args = [path, path]
        p = subprocess.run(cmd + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ctx.scratch, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (40, 45)),
                           env={"PYTHONDONTWRITEBYTECODE": "1", "PATH": "/usr/bin:/bin"})
        if c.cli == "ok" and out is not None:
            if p.returncode != 0 or p.stdout.decode() != out:
                raise Violation("the compiler ends with %s and prints %r" % (p.returncode, p.stdout.decode()[:500]))
        elif p.returncode == 0 or not p.stderr.strip():
            raise Violation("compiler.py %s ends with %s and prints no error (%r)" % (args, p.returncode, p.stdout.decode()[:300]))

    def check(self, c, ctx):
        path = slugs.write(ctx, "s.structuredslugs", c.text)
        out, err = self.comp.run(path, c.thorough)
        labels = []
        if c.cli:
            self.cli(c, ctx, path, out)
            labels.append("command line: " + c.cli)
        if c.bad:
            if out is not None:
                raise Violation("the declaration %r is accepted:\n%s" % (c.bad, out))
            return {"key": c.text, "nontrivial": True, "labels": ["refused declaration"]}
        if out is None:
            raise Violation("refused: %s" % err)
        v = c.v
        ints = {n for n, _, _, _ in v.ints}
        # declarations
        got, cur = {}, None
        for l in out.split("\n"):
            l = l.strip()
            if l.startswith("["):
                cur = got.setdefault(l[1:-1], [])
            elif l and not l.startswith("#"):
                cur.append(l)
        for s in c.io:
            exp = [b for n in c.order[s] for b in (v.bitnames(n) if n in ints else [n])]
            if got.get(s, []) != exp:
                raise Violation("section %s declares %r instead of %r" % (s, got.get(s, []), exp))
        if set(got) - set(c.io) - set(SECS):
            raise Violation("sections %r appear" % sorted(set(got) - set(c.io) - set(SECS)))
        bits = [b for s in c.io for b in got.get(s, [])]
        plain = c.io == ("INPUT", "OUTPUT")
        names = {}
        for s in c.io:
            for b in got.get(s, []):
                names[b] = s[0] if plain else "I"
                names[b + "'"] = (s[0] if plain else "I") + "'"
        if plain:
            try:
                sp = slugsin.parse(out)
            except slugsin.FormatError as e:
                # outputs in the next step etc. are not for the compiler to refuse
                raise Violation("the result is not well-formed (%s)" % e)
        cols = [(b, p) for b in bits for p in (False, True)]
        if len(cols) <= 12:
            idx = np.arange(1 << len(cols))
            table = {x: (idx >> i & 1).astype(bool) for i, x in enumerate(cols)}
            n = len(idx)
        else:
            n = 4096
            rng = np.random.default_rng(sum(map(ord, c.text)))
            table = {x: rng.integers(0, 2, n).astype(bool) for x in cols}
        val = lambda b, p: table[(b, bool(p))]

        def inrange(name, lo, hi, primed):
            return S.number(("i", name, primed), v, val, False) <= hi
        for s in SECS:
            forms = []
            for l in got.get(s, []):
                try:
                    forms.append(np.broadcast_to(S.ev_slugs(slugsin.formula(l, names, ("I", "I'", "O", "O'")), val), (n,)))
                except slugsin.FormatError as e:
                    raise Violation("section %s: %r is malformed (%s)" % (s, l, e))
            ref = [np.broadcast_to(S.ev(f, v, val), (n,)) for f, _ in c.lines[s]]
            if s.endswith("LIVENESS"):
                if len(ref) != len(forms) or any((a != b).any() for a, b in zip(ref, forms)):
                    raise Violation("the liveness constraints %r become %r" % ([t for _, t in c.lines[s]], got.get(s, [])))
                continue
            limits = []
            for name, lo, hi, sec in v.ints:
                if sec.endswith("INPUT") == s.startswith("ENV"):
                    if s.endswith("INIT"):
                        limits.append(inrange(name, lo, hi, False))
                    else:
                        limits.append(inrange(name, lo, hi, True))
                        if c.thorough:
                            limits.append(inrange(name, lo, hi, False))
            a = np.ones(n, dtype=bool)
            for x in ref + limits:
                a = a & x
            b = np.ones(n, dtype=bool)
            for x in forms:
                b = b & x
            bad = np.nonzero(a != b)[0]
            if len(bad):
                raise Violation("section %s with range limits should be %s, but is %s for %s" % (
                    s, bool(a[bad[0]]), bool(b[bad[0]]), {q + ("'" if p else ""): int(table[(q, p)][bad[0]]) for q, p in cols}))
        if plain and sp.k <= 6:
            f = slugs.write(ctx, "s.slugsin", out)
            r = slugs.run(ctx, [f])
            exp = gr1.Game(sp).realizable()
            labels.append("realizable" if exp else "unrealizable")
            if r.verdict != exp:
                raise Violation("slugs says %s for the translated specification, the reference %s" % (r.verdict, exp))
        labels.append("thorough" if c.thorough else "not thorough")
        return {"key": (c.text, c.thorough), "nontrivial": bool(v.ints), "labels": labels}


PROP = P()
