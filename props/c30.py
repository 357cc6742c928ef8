"""C30: the scripts that search for realizability report true results."""
import ast, itertools, os, re, shutil
from vlib import pbt, gr1, slugs, slugsin, jython
from vlib import structured as S
from vlib.pbt import Violation

SECS = ["ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"]
NOISE = ["", "SLUGS: SmaLl bUt complete Gr(1) Synthesis tool", "echo test", "RESULT", "x RESULT: Specification is realizable.",
         "RESULT: Specification is unrealizable. (not)"]


class Case:
    pass


def fold(sections):
    out = []
    for s, ls in sections:
        out.append("[%s]" % s)
        out += ls + [""]
    return "\n".join(out) + "\n"


class P(pbt.Prop):
    id = "C30"
    variants = ["slugs"]
    quick_cases = 3200
    thorough_cases = 40000
    rule = ("search over one parameter and over one to three parameters with monotone and antitone directions against all possible "
            "up-sets (also with scripts that fail), unrealizable cores and stuck-at analyses of random small specifications against the "
            "reference game; non-trivial: the answer is not the trivial one (an inner threshold, a front of two or more points, a core "
            "that differs from the specification, a signal of which some values are all right and others not)")
    assumptions = ["Jython runs the Python 2 scripts as Python 2 does", "the wrapper scripts are monotone"]

    def setup(self, ctx):
        self.tools = jython.Tools(ctx, ctx.builds["slugs"])
        t = self.tools.root + "/tools/"
        for f in ("findMinimalUnrealizableCore.py", "analyzeStuckAtConstant.py"):
            x = open(t + f).read()
            open(t + f, "w").write(x.replace("/tmp/", self.tools.root + "/tmp/"))
        self.comp = S.Compiler()

    def teardown(self, ctx):
        self.tools.stop()

    # ------------------------------------------------------------------ generators
    def gen(self, tc):
        c = Case()
        c.kind = tc.weighted([(3, "binary"), (4, "multi"), (7, "core"), (2, "stuck")])
        getattr(self, "gen_" + c.kind)(tc, c)
        return c

    def gen_script(self, tc, c):
        c.fault = tc.pick(["exit", "both", "none"]) if tc.bool(0.06) else None
        c.noise = [tc.pick(NOISE) for _ in range(tc.choice(3))]
        c.stderr = tc.bool(0.5)

    def gen_binary(self, tc, c):
        lo = tc.int(0, 12) - (6 if tc.bool(0.3) else 0)
        c.ranges = [(lo, lo + tc.pick([0, 1, 2, 3, 5, 8, 13, 40]), tc.bool(0.5))]
        self.gen_script(tc, c)
        a, b, mono = c.ranges[0]
        k = tc.int(a, b + 1)
        c.good = [(x,) for x in range(a, b + 1) if (x >= k if mono else x < k)]

    def gen_multi(self, tc, c):
        n = tc.weighted([(1, 1), (4, 2), (2, 3)])
        c.ranges = []
        for _ in range(n):
            lo = tc.int(0, 5)
            c.ranges.append((lo, lo + tc.choice(5 if n < 3 else 3), tc.bool(0.5)))
        self.gen_script(tc, c)
        pts = list(itertools.product(*[range(a, b + 1) for a, b, _ in c.ranges]))
        seeds = [tc.pick(pts) for _ in range(tc.int(0, 4))]
        c.good = [p for p in pts if any(self.leq(c, s, p) for s in seeds)]

    def leq(self, c, s, p):
        """s is at most as good as p in the directions of the parameters"""
        return all((x <= y) if m else (x >= y) for x, y, (_, _, m) in zip(s, p, c.ranges))

    def gen_core(self, tc, c):
        c.spec = gr1.gen_spec(tc, max_in=2, max_out=2, max_sec=4, max_live=3, graphs=tc.bool(0.6))
        c.comment = tc.bool(0.3)
        c.order = tc.shuffle(SECS) if tc.bool(0.3) else SECS

    def gen_stuck(self, tc, c):
        c.v = S.gen_vars(tc, 4, maxint=3, sections=("INPUT", "OUTPUT"))
        c.lines = {s: [] for s in SECS}
        ins = S.Vars()
        ins.bools = [x for x in c.v.bools if x[1] == "INPUT"]
        ins.ints = [x for x in c.v.ints if x[3] == "INPUT"]
        for s in SECS:
            v = ins if s == "ENV_INIT" else c.v
            for _ in range(tc.weighted([(3, 0), (4, 1), (2, 2)] if s != "SYS_TRANS" else [(1, 0), (3, 1), (3, 2)])):
                f = S.gen(tc, v, False, tc.int(0, 2))
                if "INIT" not in s and tc.bool(0.8):
                    w = ins if s == "ENV_TRANS" else c.v
                    if w.bools or w.ints:
                        g = ("next", S.gen(tc, w, False, 1))
                        f = (tc.pick(["->", "<->"]), f, g) if tc.bool(0.7) else g
                t = S.show(tc, f)
                c.lines[s].append("(" + t + ")" if t.startswith("[") else t)
        c.comment = tc.bool(0.3)

    def structured(self, c):
        decl = []
        for s in ("INPUT", "OUTPUT"):
            ls = [n for n, t in c.v.bools if t == s] + ["%s:%d...%d" % (n, lo, hi) for n, lo, hi, t in c.v.ints if t == s]
            decl.append((s, ls))
        t = [(s, list(l)) for s, l in decl + [(s, c.lines[s]) for s in SECS]]
        if c.comment:
            for s, l in t:
                l.insert(0, "# comment of %s" % s)
        return ("# a specification\n\n" if c.comment else "") + fold(t)

    def slugsin(self, c):
        secs = [("INPUT", c.spec.inputs), ("OUTPUT", c.spec.outputs)] + [(s, [gr1.to_slugs(f) for f in getattr(c.spec, s)]) for s in c.order]
        return fold([(s, (["# comment"] if c.comment else []) + list(l)) for s, l in secs])

    def render(self, c):
        if c.kind == "core":
            return self.slugsin(c)
        if c.kind == "stuck":
            return self.structured(c)
        return "%s %r good %r fault %r noise %r" % (c.kind, c.ranges, c.good, c.fault, c.noise)

    # ------------------------------------------------------------------ checks
    def check(self, c, ctx):
        return getattr(self, "check_" + c.kind)(c, ctx)

    def script(self, c, ctx):
        f, log = ctx.scratch + "/eval.sh", ctx.scratch + "/calls"
        yes, no = "echo 'RESULT: Specification is realizable.'", "echo 'RESULT: Specification is unrealizable.'"
        t = ["#!/bin/sh", "echo \"$@\" >> %s" % log] + ["echo '%s'" % x for x in c.noise]
        t.append("case \"$*\" in")
        if c.good:
            t.append("%s) %s;;" % ("|".join("'%s'" % " ".join(map(str, g)) for g in c.good), yes + (" 1>&2" if c.stderr else "")))
        t.append("*) %s;;" % (no if c.fault != "none" else "true"))
        t.append("esac")
        if c.fault == "both":
            t.append(no)
        if c.fault == "none":
            t = [x for x in t if "case" not in x and "esac" not in x and ";;" not in x]
        if c.fault == "exit":
            t.append("exit 3")
        open(f, "w").write("\n".join(t) + "\n")
        os.chmod(f, 0o755)
        if os.path.exists(log):
            os.remove(log)
        return f, log

    def search(self, c, ctx, tool):
        f, log = self.script(c, ctx)
        args = [f]
        for a, b, m in c.ranges:
            args += [str(a), str(b), "MONOTONE" if m else "ANTITONE"]
        r = self.tools.run(tool, args, timeout=60 if not c.fault else 40)
        calls = [tuple(int(x) for x in l.split()) for l in open(log)] if os.path.exists(log) else []
        for p in calls:
            if any(not a <= x <= b for x, (a, b, _) in zip(p, c.ranges)) or len(p) != len(c.ranges):
                raise Violation("%s evaluates %r outside of the ranges %r" % (tool, p, c.ranges))
        if c.fault:
            if r.rc == 0 or not r.err.strip():
                raise Violation("%s ends with %s and %r although the script failed (%s)" % (tool, r.rc, r.out[-300:], c.fault))
        elif r.rc != 0:
            raise Violation("%s ends with %s: %s" % (tool, r.rc, r.err[-600:]))
        return r, calls

    def check_binary(self, c, ctx):
        r, calls = self.search(c, ctx, "binaryRealizabilitySearch.py")
        lo, hi, mono = c.ranges[0]
        if not c.fault:
            g = [x for x, in c.good]
            if not g:
                if "totally unrealizable" not in r.out:
                    raise Violation("no parameter is good, but the result is %r" % r.out)
            else:
                best = min(g) if mono else max(g)
                m = re.search(r"The (minimum|maximum) value for realizability is (-?\d+)\n", r.out)
                if not m or (m.group(1) == "minimum") != mono or int(m.group(2)) != best:
                    raise Violation("the %s good parameter is %d, but the result is %r" % ("smallest" if mono else "largest", best, r.out))
                if calls[-1] != (best,):
                    raise Violation("the last call is made with %r instead of %d" % (calls[-1], best))
            if len(calls) > (hi - lo).bit_length() + 1:
                raise Violation("%d calls for the range %d..%d" % (len(calls), lo, hi))
            m = re.search(r"Tests performed: (.*)", r.out)
            if m:
                said = [(int(x[:-1]), x[-1] == "+") for x in m.group(1).split()]
                if said != [(p[0], p in c.good) for p in calls[:-1]]:
                    raise Violation("the tests are reported as %r, performed were %r" % (said, calls))
        return {"key": self.render(c), "nontrivial": 0 < len(c.good) < hi - lo + 1, "labels": ["binary", "fault: %s" % c.fault]}

    def check_multi(self, c, ctx):
        r, calls = self.search(c, ctx, "multiDimensionalRealizabilitySearch.py")
        front = [p for p in c.good if not any(q != p and self.leq(c, q, p) for q in c.good)]
        if not c.fault:
            m = re.search(r"^Pareto front: +(.*)$", r.out, re.M)
            got = [tuple(x) for x in ast.literal_eval(m.group(1))] if m else None
            if got is None or sorted(got) != sorted(front):
                raise Violation("the best parameters are %r, but the result is %r" % (front, got))
            if len(set(calls)) != len(calls):
                raise Violation("a parameter is evaluated twice: %r" % calls)
        return {"key": self.render(c), "nontrivial": len(front) >= 2, "labels": ["multi%d" % len(c.ranges), "fault: %s" % c.fault]}

    def check_core(self, c, ctx):
        core = self.tools.root + "/tmp/core.slugsin"
        if os.path.exists(core):
            os.remove(core)
        f = slugs.write(ctx, "spec.slugsin", self.slugsin(c))
        r = self.tools.run("findMinimalUnrealizableCore.py", [f])
        if r.rc != 0:
            raise Violation("findMinimalUnrealizableCore.py ends with %s: %s" % (r.rc, r.err[-600:]))
        text = open(core).read()
        got, cur = {}, None
        for l in text.split("\n"):
            l = l.strip()
            if l.startswith("["):
                cur = got.setdefault(l[1:-1], [])
            elif l and not l.startswith("#"):
                cur.append(l)
        orig = c.spec
        new = orig.copy()
        for s in ["INPUT", "OUTPUT"] + SECS:
            ref = {"INPUT": orig.inputs, "OUTPUT": orig.outputs}.get(s)
            if ref is None:
                ref = [gr1.to_slugs(x) for x in getattr(orig, s)]
            if s in ("SYS_TRANS", "SYS_LIVENESS"):
                keep, pos = [], 0
                for l in got.get(s, []):
                    while pos < len(ref) and ref[pos] != l:
                        pos += 1
                    if pos == len(ref):
                        raise Violation("the core has lines in %s that the specification does not have: %r" % (s, got[s]))
                    keep.append(getattr(orig, s)[pos])
                    pos += 1
                setattr(new, s, keep)
            elif got.get(s, []) != ref:
                raise Violation("the section %s of the core is %r instead of %r" % (s, got.get(s), ref))
        real = gr1.Game(orig).realizable()
        changed = len(new.SYS_TRANS) + len(new.SYS_LIVENESS) < len(orig.SYS_TRANS) + len(orig.SYS_LIVENESS)
        if real:
            if changed:
                raise Violation("the specification is realizable, but the core lacks some of its guarantees")
        else:
            if gr1.Game(new).realizable():
                raise Violation("the core is realizable:\n" + text)
            for s in ("SYS_TRANS", "SYS_LIVENESS"):
                for i in range(len(getattr(new, s))):
                    less = new.copy()
                    del getattr(less, s)[i]
                    if not gr1.Game(less).realizable():
                        raise Violation("the core is not minimal: %r of %s can be left out:\n%s" % (got[s][i], s, text))
        return {"key": self.render(c), "nontrivial": not real and changed, "labels": ["core", "realizable" if real else "unrealizable"]}

    def check_stuck(self, c, ctx):
        text = self.structured(c)
        f = slugs.write(ctx, "spec.structuredslugs", text)
        out, err = self.comp.run(f, True)
        if out is None:
            raise pbt.Reject()
        sp = slugsin.parse(out)
        base = gr1.Game(sp).realizable()
        r = self.tools.run("analyzeStuckAtConstant.py", [f])
        if r.rc != 0:
            raise Violation("analyzeStuckAtConstant.py ends with %s: %s" % (r.rc, r.err[-600:]))
        m = re.search(r"Starting point is +(a realizable|an unrealizable) +specification", r.out)
        if not m or (m.group(1) == "a realizable") != base:
            raise Violation("the specification is %s, but the report is\n%s" % ("realizable" if base else "unrealizable", r.out))
        sec, tr, ini = ("OUTPUT", "SYS_TRANS", "SYS_INIT") if base else ("INPUT", "ENV_TRANS", "ENV_INIT")
        exp, mixed = {}, False

        def fix(bits):
            t = sp.copy()
            for s, p in ((tr, True), (ini, False)):
                for n, b in bits:
                    a = gr1.V(n, p)
                    getattr(t, s).append(a if b else ("!", a))
            return gr1.Game(t).realizable()
        for n, t in c.v.bools:
            if t == sec:
                exp[n] = [str(b) for b in (False, True) if fix([(n, b)]) == base]
                mixed |= len(exp[n]) == 1
        for n, lo, hi, t in c.v.ints:
            if t == sec:
                names = c.v.bitnames(n)
                exp[n] = [str(x) for x in range(lo, hi + 1) if fix([(b, bool((x - lo) >> i & 1)) for i, b in enumerate(names)]) == base]
                mixed |= 0 < len(exp[n]) < hi - lo + 1
        got = {}
        word = "output" if base else "input"
        for l in r.out.split("\n"):
            m = re.match(r"Fixing the value of the (\w+) signal (\S+) (changes that\.|to +(.*?) +does not change this fact\.)$", l.strip())
            if m:
                if m.group(1) != word or m.group(2) in got:
                    raise Violation("unexpected line %r" % l)
                got[m.group(2)] = [x for x in re.split(r",? or |, ", m.group(4)) if x] if m.group(4) else []
            elif l.startswith("Fixing"):
                raise Violation("unexpected line %r" % l)
        if got != exp:
            raise Violation("values that make no difference: %r reported, %r true" % (got, exp))
        return {"key": self.render(c), "nontrivial": mixed, "labels": ["stuck", "realizable" if base else "unrealizable"]}


PROP = P()
