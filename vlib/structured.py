"""Structured slugs specifications: generation, printing, reference semantics, and running the compiler in-process."""
import io, os, sys, types, contextlib
import numpy as np
from . import build, pbt

DIR = build.REPO + "/tools/StructuredSlugsParser"
BOOLS = ["a", "b", "req_1", "x.y", "_q", "Xa", "next1", "TRUEx", "c"]
INTS = ["n", "m", "cnt", "v_2", "pos.x", "G1", "k"]


class Compiler:
    """tools/StructuredSlugsParser/compiler.py, executed with fresh globals for every file"""

    def __init__(self):
        m = types.ModuleType("Parser")
        with open(DIR + "/Parser.py") as f:
            exec(compile(f.read(), DIR + "/Parser.py", "exec"), m.__dict__)
        self.parser = m
        with open(DIR + "/compiler.py") as f:
            self.code = compile(f.read(), DIR + "/compiler.py", "exec")

    def run(self, path, thorough=False):
        """(text, error)"""
        old = sys.modules.get("Parser")
        sys.modules["Parser"] = self.parser
        out, err = io.StringIO(), io.StringIO()
        g = {"__name__": "compiler"}
        try:
            exec(self.code, g)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), pbt.cpu_limit("the compiler"):
                g["performConversion"](path, thorough)
        except pbt.Violation:
            raise
        except Exception as e:
            return None, "%s: %s" % (type(e).__name__, str(e)[:300])
        finally:
            if old is not None:
                sys.modules["Parser"] = old
        return out.getvalue(), err.getvalue()


def nbits(lo, hi):
    n = 0
    while (1 << n) <= hi - lo:
        n += 1
    return n


class Vars:
    def __init__(self):
        self.bools = []     # [(name, section)]
        self.ints = []      # [(name, lo, hi, section)]

    def rng(self, n):
        return next((lo, hi) for m, lo, hi, _ in self.ints if m == n)

    def bitnames(self, n):
        lo, hi = self.rng(n)
        return ["%s@0.%d.%d" % (n, lo, hi) if i == 0 else "%s@%d" % (n, i) for i in range(nbits(lo, hi))]


def gen_vars(tc, maxbits, maxint=20, sections=("INPUT", "OUTPUT")):
    v = Vars()
    used = 0
    names = tc.shuffle(BOOLS)
    for _ in range(tc.int(0, 3)):
        if used < maxbits:
            v.bools.append((names.pop(), tc.pick(sections)))
            used += 1
    names = tc.shuffle(INTS)
    for _ in range(tc.int(0, 3)):
        lo = tc.weighted([(9, 0), (3, 1), (3, 2), (3, 3), (3, 5), (3, 7), (3, 12), (3, 16), (1, 64), (1, 100), (1, 1000)])
        hi = lo + (tc.choice(400) if maxint > 12 and tc.bool(0.08) else tc.choice(maxint))
        if used + nbits(lo, hi) <= maxbits:
            v.ints.append((names.pop(), lo, hi, tc.pick(sections)))
            used += nbits(lo, hi)
    return v


# formulas: ("b", name, primed), ("cmp", op, l, r), ("!", f), ("&"/"|"/"^", [f...]), ("->", f, g), ("<->", f, g), ("next", f), ("1",), ("0",)
# numbers: ("n", k), ("i", name, primed), ("+", l, r), ("lsb", l, r), ("()", e)
def gen_number(tc, v, post, depth):
    kind = tc.weighted([(4 if v.ints else 0, "i"), (3, "n"), (3 if depth > 0 else 0, "+"), (1 if depth > 0 else 0, "()"),
                        (1 if v.ints else 0, "lsb")])
    if kind == "i":
        return ("i", tc.pick(v.ints)[0], post and tc.bool(0.4))
    if kind == "n":
        return ("n", tc.weighted([(3, tc.choice(6)), (2, tc.choice(24)), (1, tc.choice(80))]))
    if kind == "()":
        return ("()", gen_number(tc, v, post, depth - 1))
    if kind == "lsb":
        # the overwritten expression has more bits
        c = [(l, r) for l in v.ints for r in v.ints if l[1] == r[1] == 0 and nbits(l[1], l[2]) < nbits(r[1], r[2])]
        if not c:
            return ("n", tc.choice(4))
        l, r = tc.pick(c)
        return ("lsb", ("i", l[0], post and tc.bool(0.4)), ("i", r[0], post and tc.bool(0.4)))
    return ("+", gen_number(tc, v, post, depth - 1), gen_number(tc, v, post, depth - 1))


def gen(tc, v, post, depth):
    """post: next values may be mentioned"""
    atom = [(4 if v.bools else 0, "b"), (5, "cmp"), (1, "const")]
    kind = tc.weighted(atom + ([(2, "!"), (3, "&"), (3, "|"), (2, "^"), (2, "->"), (2, "<->"), (1 if post else 0, "next"), (0, "x")]
                               if depth > 0 else []))
    if kind == "b":
        return ("b", tc.pick(v.bools)[0], post and tc.bool(0.4))
    if kind == "cmp":
        return ("cmp", tc.pick(["=", "!=", "<", "<=", ">", ">="]), gen_number(tc, v, post, 2), gen_number(tc, v, post, 2))
    if kind == "const":
        return (tc.pick("10"),)
    if kind == "!":
        return ("!", gen(tc, v, post, depth - 1))
    if kind == "next":
        return ("next", gen(tc, v, False, depth - 1))
    if kind in "&|^":
        return (kind, [gen(tc, v, post, depth - 1) for _ in range(tc.int(2, 3))])
    return (kind, gen(tc, v, post, depth - 1), gen(tc, v, post, depth - 1))


LEVEL = {"<->": 0, "->": 1, "^": 2, "|": 3, "&": 4, "!": 5, "next": 5}
SPELL = {"<->": ["<->", "<-->"], "->": ["->", "-->"], "^": ["^"], "|": ["|", "||", "\\/"], "&": ["&", "&&", "/\\"], "!": ["!", "~"],
         "next": ["next", "X", "()"]}


def show_number(tc, e, top=True):
    k = e[0]
    if k == "n":
        return str(e[1])
    if k == "i":
        return e[1] + ("'" if e[2] else "")
    if k == "()":
        return "(" + show_number(tc, e[1]) + ")"
    sp = tc.pick(["", " "])
    if k == "lsb":
        return show_number(tc, e[1], False) + " LEASTSIGNIFICANTBITOVERWRITES " + show_number(tc, e[2], False)
    l, r = show_number(tc, e[1]), show_number(tc, e[2])
    # + is associative, so its nesting needs no brackets
    return l + sp + "+" + sp + r


def show(tc, f, level=0):
    """Prints with as few brackets as the documented precedence allows, sometimes with more."""
    k = f[0]
    if k == "b":
        s, own = f[1] + ("'" if f[2] else ""), 9
    elif k in "10":
        s, own = {"1": "TRUE", "0": "FALSE"}[k], 9
    elif k == "cmp":
        sp = tc.pick(["", " "])
        s, own = show_number(tc, f[2]) + sp + f[1] + sp + show_number(tc, f[3]), 9
    elif k == "!":
        s, own = tc.pick(SPELL["!"]) + tc.pick(["", " "]) + show(tc, f[1], 5), 5
    elif k == "next":
        s, own = tc.pick(SPELL["next"]) + " " + show(tc, f[1], 5), 5
    elif k in "&|^":
        own = LEVEL[k]
        sp = tc.pick(["", " "])
        op = tc.pick(SPELL[k])
        s = (sp + op + sp).join(show(tc, g, own + 1) for g in f[1])
    else:
        own = LEVEL[k]
        # no assumption about how -> and <-> associate
        s = show(tc, f[1], own + 1) + " " + tc.pick(SPELL[k]) + " " + show(tc, f[2], own + 1)
    if own < level or own < 9 and tc.bool(0.12):
        o, c = "()" if level == 0 or tc.bool(0.8) else "[]"
        s = o + tc.pick(["", " "]) + s + c
    return s


def number(e, v, val, primed):
    """value; val(bitname, primed) -> array"""
    k = e[0]
    if k == "n":
        return np.int64(e[1])
    if k == "i":
        lo, hi = v.rng(e[1])
        r = np.int64(lo)
        for i, b in enumerate(v.bitnames(e[1])):
            r = r + (val(b, e[2] or primed).astype(np.int64) << i)
        return r
    if k == "()":
        return number(e[1], v, val, primed)
    if k == "+":
        return number(e[1], v, val, primed) + number(e[2], v, val, primed)
    l = number(e[1], v, val, primed)
    r = number(e[2], v, val, primed)
    w = len(v.bitnames(e[1][1]))
    return (r >> w << w) + l


def ev(f, v, val, primed=False):
    k = f[0]
    if k == "b":
        return val(f[1], f[2] or primed)
    if k in "10":
        return np.bool_(k == "1")
    if k == "cmp":
        l, r = number(f[2], v, val, primed), number(f[3], v, val, primed)
        return {"=": l == r, "!=": l != r, "<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[f[1]]
    if k == "!":
        return np.logical_not(ev(f[1], v, val, primed))
    if k == "next":
        return ev(f[1], v, val, True)
    if k in "&|^":
        r = ev(f[1][0], v, val, primed)
        for g in f[1][1:]:
            x = ev(g, v, val, primed)
            r = {"&": np.logical_and, "|": np.logical_or, "^": np.logical_xor}[k](r, x)
        return r
    l, r = ev(f[1], v, val, primed), ev(f[2], v, val, primed)
    return np.logical_or(np.logical_not(l), r) if k == "->" else l == r


def ev_slugs(f, val, mem=None):
    """the same for a formula in the slugsin format"""
    k = f[0]
    if k == "v":
        return val(f[1], f[2])
    if k in "10":
        return np.bool_(k == "1")
    if k == "!":
        return np.logical_not(ev_slugs(f[1], val, mem))
    if k in "&|^":
        op = {"&": np.logical_and, "|": np.logical_or, "^": np.logical_xor}[k]
        return op(ev_slugs(f[1], val, mem), ev_slugs(f[2], val, mem))
    if k == "$":
        m = []
        for x in f[1]:
            m.append(ev_slugs(x, val, m))
        return m[-1]
    return mem[f[1]]


def uses_next(f):
    if f[0] in ("b",):
        return f[2]
    if f[0] == "next":
        return True
    if f[0] in "10n":
        return False
    if f[0] == "i":
        return f[2]
    return any(uses_next(x) for x in (f[1] if f[0] in ("&", "|", "^") else f[1:]) if isinstance(x, tuple))
