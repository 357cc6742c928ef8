"""Reference semantics for the decision diagram package: truth tables as Python integers.

A program is a list of lines (tokens); the register machine of harness/dd.cpp runs it on CUDD and prints every result as a
truth table (computed by walking the nodes). `check_program` replays the program on truth tables. Operations whose result is
only constrained (approximations, minimisation with don't cares, ...) are checked against their contract, and the reference
state then adopts the verified result.
"""
import itertools, math, os, subprocess, signal
from vlib import pbt
from vlib.pbt import Violation

MISS = 4          # extra registers are never used by the generator


class Server:
    def __init__(self, exe, scratch, timeout=30):
        self.exe, self.scratch, self.timeout, self.p = exe, scratch, timeout, None

    def start(self):
        self.err = open(self.scratch + "/server.err", "wb")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1")
        self.p = subprocess.Popen([self.exe, self.scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  preexec_fn=os.setsid)

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.wait()
            self.err.close()
            self.p = None

    def run(self, text):
        """Returns the output lines up to END"""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(text.encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        buf = []
        last = b""
        fd = self.p.stdout.fileno()
        while True:
            try:
                pbt.wait_answer("the decision diagram package", self.p.pid, fd, self.timeout)
            except Exception:
                self.stop()
                raise
            d = os.read(fd, 1 << 20)
            if not d:
                rc = self.p.wait()
                out = b"".join(buf).decode(errors="replace")
                self.stop()
                with open(self.scratch + "/server.err", "rb") as f:
                    e = f.read()[-1500:].decode(errors="replace")
                raise Violation("the decision diagram package crashed (exit code %s)\n%s\noutput so far:\n%s" % (rc, e, out[-500:]))
            buf.append(d)
            last = (last + d)[-5:]
            if last == b"\nEND\n":
                break
        return b"".join(buf).decode(errors="replace").split("\n")[:-2]


class State:
    def __init__(self, n, nz, regs):
        self.n, self.nz = n, nz
        self.F = (1 << (1 << n)) - 1
        self.V = []
        for i in range(n):
            b = ((1 << (1 << i)) - 1) << (1 << i)
            w = 2 << i
            while w < (1 << n):
                b |= b << w
                w *= 2
            self.V.append(b)
        self.B = [0] * regs
        self.A = [(0.0,) * (1 << n)] * regs
        self.Z = [0] * regs
        self.map = None

    # ---- truth table helpers
    def c1(self, f, i):
        r = f & self.V[i]
        return r | r >> (1 << i)

    def c0(self, f, i):
        r = f & ~self.V[i]
        return r | r << (1 << i)

    def ite(self, f, g, h):
        return (f & g) | (~f & self.F & h)

    def inot(self, f):
        return self.F & ~f

    def exist(self, f, vs):
        for i in vs:
            f = self.c0(f, i) | self.c1(f, i)
        return f

    def univ(self, f, vs):
        for i in vs:
            f = self.c0(f, i) & self.c1(f, i)
        return f

    def dep(self, f, i):
        return self.c0(f, i) != self.c1(f, i)

    def support(self, f):
        return [i for i in range(self.n) if self.dep(f, i)]

    def cube(self, lits):
        r = self.F
        for i, p in lits:
            r &= self.V[i] if p else ~self.V[i] & self.F
        return r

    def lits(self, c):
        """The literals of a cube, None if it is not one (the empty cube is the constant 1)"""
        if c == 0:
            return None
        l = []
        for i in range(self.n):
            if self.dep(c, i):
                if self.c0(c, i) == 0:
                    l.append((i, 1))
                elif self.c1(c, i) == 0:
                    l.append((i, 0))
                else:
                    return None
                c = self.exist(c, [i])
        return l if c == self.F else None

    def digits(self, s):
        """cube from a string over 0, 1, 2"""
        return self.cube([(i, int(ch)) for i, ch in enumerate(s) if ch != "2"])

    def count(self, f):
        return bin(f).count("1")

    def vcompose(self, f, gs):
        memo = {}

        def rec(f, i):
            if f == 0 or f == self.F:
                return f
            k = (f, i)
            if k in memo:
                return memo[k]
            while not self.dep(f, i):
                i -= 1
            memo[k] = self.ite(gs[i], rec(self.c1(f, i), i - 1), rec(self.c0(f, i), i - 1))
            return memo[k]
        return rec(f, self.n - 1)

    def permute(self, f, p):
        return self.vcompose(f, [self.V[p[i]] for i in range(self.n)])

    def val(self, m, xs):
        """The number the variables xs (most significant first) stand for in minterm m"""
        r = 0
        for x in xs:
            r = r * 2 + (m >> x & 1)
        return r

    def table(self, pred):
        r = 0
        for m in range(1 << self.n):
            if pred(m):
                r |= 1 << m
        return r

    def sat(self, f):
        return [m for m in range(1 << self.n) if f >> m & 1]


def hx(st, f):
    return "%0*x" % (16 * max(1, (1 << st.n) // 64), f)


class Toks:
    def __init__(self, l):
        self.l, self.i = l, 0

    def int(self):
        self.i += 1
        return int(self.l[self.i - 1])

    def float(self):
        self.i += 1
        return float(self.l[self.i - 1])

    def str(self):
        self.i += 1
        return self.l[self.i - 1]

    def list(self):
        return [self.int() for _ in range(self.int())]


OPS = {}          # name -> (signature, check function, group)
SIMPLE = {}


def op(name, sig, group, gen=None):
    """sig: d destination, f BDD operand, v variable, L variables, LL two disjoint lists of equal length, LLL three, P permutation,
    i<lo>..<hi> number. The check function gets the state and the decoded operands (tables for f), and the result line."""
    def deco(fn):
        OPS[name] = (sig.split(), fn, group, gen)
        return fn
    return deco


def need(c, msg):
    if not c:
        raise Violation(msg)


def exact(name, sig, group, fn, gen=None, null=None):
    """The result is the function fn(state, operands)"""
    def check(st, d, *a):
        res = a[-1]
        if res.startswith("NULL"):
            need(null is not None and null(st, *a[:-1]), "no result")
            return
        e = fn(st, *a[:-1])
        got = int(res, 16)
        need(got == e, "the result is %s, expected %s" % (hx(st, got), hx(st, e)))
        st.B[d] = got
    OPS[name] = (("d " + sig).split(), check, group, gen)


def within(name, sig, group, fn, gen=None, null=None):
    """fn(state, result, operands) says what is wrong, or returns None"""
    def check(st, d, *a):
        res = a[-1]
        if res.startswith("NULL"):
            need(null is not None and null(st, *a[:-1]), "no result")
            return
        got = int(res, 16)
        w = fn(st, got, *a[:-1])
        need(w is None, "the result %s %s" % (hx(st, got), w))
        st.B[d] = got
    OPS[name] = (("d " + sig).split(), check, group, gen)


def value(name, sig, group, fn, gen=None):
    """The printed result is the string fn(state, operands)"""
    def check(st, *a):
        e = fn(st, *a[:-1])
        e = str(int(e)) if isinstance(e, (bool, int)) else e
        need(a[-1].strip() == e.strip(), "printed %s, expected %s" % (a[-1], e))
    OPS[name] = (sig.split(), check, group, gen)


def le(a, b):
    return a & ~b == 0


# ---------------------------------------------------------------- Boolean operations
G = "bool"
exact("const", "i0..1", G, lambda s, c: s.F if c else 0)
exact("var", "v", G, lambda s, v: s.V[v])
exact("copy", "f", G, lambda s, f: f)
exact("not", "f", G, lambda s, f: s.inot(f))
exact("and", "f f", G, lambda s, f, g: f & g)
exact("or", "f f", G, lambda s, f, g: f | g)
exact("nand", "f f", G, lambda s, f, g: s.inot(f & g))
exact("nor", "f f", G, lambda s, f, g: s.inot(f | g))
exact("xor", "f f", G, lambda s, f, g: f ^ g)
exact("xnor", "f f", G, lambda s, f, g: s.inot(f ^ g))
exact("ite", "f f f", G, lambda s, f, g, h: s.ite(f, g, h))
LIM = "i1..60"


def limnull(s, *a):
    return True


exact("andlim", "f f " + LIM, G, lambda s, f, g, l: f & g, null=limnull)
exact("orlim", "f f " + LIM, G, lambda s, f, g, l: f | g, null=limnull)
exact("xnorlim", "f f " + LIM, G, lambda s, f, g, l: s.inot(f ^ g), null=limnull)
exact("itelim", "f f f " + LIM, G, lambda s, f, g, h, l: s.ite(f, g, h), null=limnull)
value("leq", "f f", G, lambda s, f, g: le(f, g))
value("leqUnless", "f f f", G, lambda s, f, g, d: le(f & ~d, g))
value("equivDC", "f f f", G, lambda s, f, g, d: (f ^ g) & ~d & s.F == 0)


@op("iteConst", "f f f", "bool")
def _itec(s, f, g, h, res):
    e = s.ite(f, g, h)
    need(res == hx(s, e) or res == "NONCONST" and e not in (0, s.F), "printed %s, expected %s" % (res, hx(s, e)))


value("eval", "f", G, lambda s, f: "".join(str(f >> m & 1) for m in range(1 << s.n)))
exact("transfer", "f", G, lambda s, f: f)
within("intersect", "f f", G, lambda s, r, f, g: "is not included in the intersection" if not le(r, f & g) else
       "is empty although the operands intersect" if not r and f & g else None)
G = "min"


def care(s, r, f, c):
    if (r ^ f) & c:
        return "differs from the function inside the care set"


def care_sup(s, r, f, c):
    if (r ^ f) & c:
        return "differs from the function inside the care set"
    if c and set(s.support(r)) - set(s.support(f)):
        return "depends on variables the function does not depend on"


NZC = lambda s, *a: False
within("constrain", "f f", G, care)
within("restrict", "f f", G, care_sup)
within("npand", "f f", G, care)
within("licomp", "f f", G, care)
within("minimize", "f f", G, care)
BELOW = "LU"       # the generator makes the first operand a subset of the second one
within("squeeze", "f f", G, lambda s, r, l, u: None if le(l, r) and le(r, u) else "is not between the bounds", gen=BELOW)
within("interpolate", "f f", G, lambda s, r, l, u: "is not between the bounds" if not (le(l, r) and le(r, u)) else
       "depends on other variables than the common ones" if set(s.support(r)) - (set(s.support(l)) & set(s.support(u))) else None, gen=BELOW)
within("isop", "f f", G, lambda s, r, l, u: None if le(l, r) and le(r, u) else "is not between the bounds", gen=BELOW)
within("clipand", "f f i0..6 i0..1", G, lambda s, r, f, g, k, d: None if (le(f & g, r) if d else le(r, f & g)) else "is on the wrong side of the conjunction")
within("clipandabs", "f f f i0..6 i0..1", G, lambda s, r, f, g, c, k, d: None if
       (le(s.exist(f & g, s.support(c)), r) if d else le(r, s.exist(f & g, s.support(c)))) else "is on the wrong side of the exact result", gen="CUBE")
within("approx", "f f i0..11 N i1..30 i0..1 q q", G, lambda s, r, f, g, k, n, t, fl, q, q2:
       None if (le(f, r) if k % 2 else le(r, f)) else "is not an approximation from the right side")


@op("decomp", "d d f i0..7", "min", "NOAUTO")
def _decomp(s, x, y, f, k, res):
    t = res.split()
    n = int(t[0])
    parts = [int(h, 16) for h in t[1:]]
    need(n in (1, 2) and len(parts) == n, "%d factors" % n)
    disj = k % 2
    tot = 0 if disj else s.F
    for p in parts:
        tot = tot | p if disj else tot & p
    need(tot == f, "the factors do not give the function: %s" % res)
    if n == 2:
        s.B[x], s.B[y] = parts


@op("cdecomp", "f i0..1", "min")
def _cdecomp(s, f, k, res):
    if f == 0:
        return
    t = res.split()
    parts = [int(h, 16) for h in t[:s.n]]
    order = [int(x) for x in t[s.n:]]
    if k == 0:
        c = s.F
        for p in parts:
            c &= p
        need(c == f, "the conjunction of the components differs from the function")
        return
    img = 0
    for m in range(1 << s.n):
        img |= 1 << sum(1 << i for i in range(s.n) if parts[i] >> m & 1)
    need(img == f, "the image of the vector differs from the function")


def mkprime_null(s, c, f):
    return s.lits(c) is None or not le(c, f)


def is_prime(s, c, f):
    l = s.lits(c)
    return l is not None and le(c, f) and all(not le(s.cube([x for x in l if x != y]), f) for y in l)


within("makeprime", "f f", G, lambda s, r, c, f: "is not a prime containing the cube" if not (is_prime(s, r, f) and le(c, r)) else None, gen="CUBEIN", null=mkprime_null)


def primes_in(s, f):
    r = []
    for lits in itertools.product((0, 1, 2), repeat=s.n):
        c = s.cube([(i, p) for i, p in enumerate(lits) if p != 2])
        if is_prime(s, c, f):
            r.append(c)
    return r


def maxexp(s, r, lb, ub, f):
    if s.lits(lb) is None or s.lits(ub) is None:
        return None
    if not le(lb, f):
        return None if r == 0 else "is not zero although lb is not contained in f"
    if s.n > 5:
        return None if le(lb, r) and le(r, f & ub) else "is not between lb and f & ub"
    e = 0
    for p in primes_in(s, f & ub):
        if le(lb, p):
            e |= p
    return None if r == e else "is not the disjunction %s of the primes" % hx(s, e)


within("maxexpand", "f f f", G, maxexp, gen="MAXEXP", null=lambda s, lb, ub, f: not le(lb, ub) or not le(lb, f) or s.lits(lb) is None or s.lits(ub) is None)

# ---------------------------------------------------------------- quantification and substitution
G = "quant"
exact("cofactor", "f f", G, lambda s, f, c: cof(s, f, c), gen="LITCUBE2", null=lambda s, f, c: s.lits(c) is None)


def cof(s, f, c):
    l = s.lits(c)
    need(l is not None, "a cofactor with respect to something that is not a cube")
    for i, p in l:
        f = s.c1(f, i) if p else s.c0(f, i)
    return f


q = lambda s, c: s.support(c)
exact("exist", "f f", G, lambda s, f, c: s.exist(f, q(s, c)), gen="CUBE")
exact("existlim", "f f " + LIM, G, lambda s, f, c, l: s.exist(f, q(s, c)), gen="CUBE", null=limnull)
exact("univ", "f f", G, lambda s, f, c: s.univ(f, q(s, c)), gen="CUBE")
exact("andabs", "f f f", G, lambda s, f, g, c: s.exist(f & g, q(s, c)), gen="CUBE")
exact("andabslim", "f f f " + LIM, G, lambda s, f, g, c, l: s.exist(f & g, q(s, c)), gen="CUBE", null=limnull)
exact("xorabs", "f f f", G, lambda s, f, g, c: s.exist(f ^ g, q(s, c)), gen="CUBE")
exact("diff", "f v", G, lambda s, f, v: s.c0(f, v) ^ s.c1(f, v))
value("vardep", "f v", G, lambda s, f, v: s.c0(f, v) & s.c1(f, v) == 0)
exact("compose", "f f v", G, lambda s, f, g, v: s.ite(g, s.c1(f, v), s.c0(f, v)))
exact("vcompose", "f F*", G, lambda s, f, gs: s.vcompose(f, gs))
exact("permute", "f P", G, lambda s, f, p: s.permute(f, p))
exact("swap", "f LL", G, lambda s, f, x, y: s.permute(f, swapperm(s, x, y)))


def swapperm(s, x, y):
    p = list(range(s.n))
    for a, b in zip(x, y):
        p[a], p[b] = b, a
    return p


@op("varmap", "d f LL", "quant")
def _varmap(s, d, f, x, y, res):
    t = res.split()
    need(t[0] == "1", "the variable map is refused")
    s.map = swapperm(s, x, y)
    e = s.permute(f, s.map)
    need(int(t[1], 16) == e, "the result is %s, expected %s" % (t[1], hx(s, e)))
    s.B[d] = e


exact("varmapagain", "f", G, lambda s, f: s.permute(f, s.map), null=lambda s, f: s.map is None)


def adj(s, f, x):
    p = list(range(s.n))
    for i in range(0, len(x) - 2, 3):
        p[x[i]], p[x[i + 1]] = x[i + 1], x[i]
    return s.permute(f, p)


exact("adjpermute", "f L", G, adj)
exact("cube", "L PH", G, lambda s, x, p: s.cube([(v, p[i] if p else 1) for i, v in enumerate(x)]))
exact("indcube", "L", G, lambda s, x: s.cube([(v, 1) for v in x]))
exact("arrcube", "T", G, lambda s, t: s.cube([(i, p) for i, p in enumerate(t) if p != 2]))


def cubearr(s, f):
    l = s.lits(f)
    if l is None:
        return None
    t = [2] * s.n
    for i, p in l:
        t[i] = p
    return t


@op("cubearr", "f", "quant", "MAYBECUBE")
def _cubearr(s, f, res):
    t = [int(x) for x in res.split()]
    e = cubearr(s, f)
    if e is None:
        need(t[0] == 0, "a function that is not a cube is converted")
    else:
        need(t[0] == 1 and t[1:] == e, "the literals are %s, expected %s" % (t, e))


value("checkcube", "f", G, lambda s, f: s.lits(f) is not None, gen="MAYBECUBE")


@op("solve", "d f L1", "quant")
def _solve(s, d, f, y, res):
    h, l, v = res.split(":")
    c = int(h, 16)
    e = s.univ(f, y)
    need(c == e, "the consistency condition is %s, expected %s" % (h, hx(s, e)))
    t = l.split()
    idx = [int(x) for x in t[0::2]]
    g = [int(x, 16) for x in t[1::2]]
    need(sorted(idx) == sorted(y), "the unknowns are %s" % idx)
    need(int(v, 16) == e, "the solution is not one: verification gives %s" % v)
    # independent of Cudd_VerifySol: any of the values of the solution solves the equation
    # where it is solvable. Solutions may depend on unknowns that come later in the list.
    sub = f
    for i in range(len(idx)):
        sub = s.ite(g[i], s.c1(sub, idx[i]), s.c0(sub, idx[i]))
    if sub != e:
        sub = f
        for i in reversed(range(len(idx))):
            sub = s.ite(g[i], s.c1(sub, idx[i]), s.c0(sub, idx[i]))
        need(sub == e, "substituting the solution leaves %s" % hx(s, sub))
    s.B[d] = c


def cproj(s, r, f, c):
    ys = s.support(c)
    if not le(r, f):
        return "is not included in the relation"
    if s.exist(r, ys) != s.exist(f, ys):
        return "loses some left hand side"
    others = [i for i in range(s.n) if i not in ys]
    seen = set()
    for m in s.sat(r):
        k = tuple(m >> i & 1 for i in others)
        if k in seen:
            return "has two pairs with the same left hand side"
        seen.add(k)


within("cproj", "f f", G, cproj, gen="CPROJ", null=lambda s, f, c: s.lits(c) is None)


def num(s, m, x):
    return s.val(m, x)


exact("xgty", "LL", G, lambda s, x, y: s.table(lambda m: s.val(m, x) > s.val(m, y)))
exact("xeqy", "LL", G, lambda s, x, y: s.table(lambda m: s.val(m, x) == s.val(m, y)))
exact("dxyxz", "LLL", G, lambda s, x, y, z: s.table(lambda m: s.val(m, x) ^ s.val(m, y) > s.val(m, x) ^ s.val(m, z)))
exact("dxyyz", "LLL", G, lambda s, x, y, z: s.table(lambda m: s.val(m, x) ^ s.val(m, y) > s.val(m, y) ^ s.val(m, z)))
exact("ineq", "LL i-9..9", G, lambda s, x, y, c: s.table(lambda m: s.val(m, x) - s.val(m, y) >= c))
exact("diseq", "LL i-9..9", G, lambda s, x, y, c: s.table(lambda m: s.val(m, x) - s.val(m, y) != c))
exact("interval", "L1 IV", G, lambda s, x, l, u: s.table(lambda m: l <= s.val(m, x) <= u))


def prio(s, f, x, y, z, k):
    val = s.val
    pi = (lambda m: val(m, y) > val(m, z), lambda m: val(m, x) ^ val(m, y) > val(m, x) ^ val(m, z), lambda m: val(m, x) ^ val(m, y) > val(m, y) ^ val(m, z))[k]
    # what follows is the relation between the pairs, the third vector stands for the competing second components
    rz = s.permute(f, swapperm(s, y, z))
    return f & ~s.exist(rz & s.table(pi), z)


exact("prio", "f LLL i0..2", G, prio, gen="PRIO")


@op("split", "d f ML i0..8", G)
def _split(s, d, f, x, k, res):
    n, m, t = res.split()
    need(t != "NULL", "no result")
    got = int(t, 16)
    sup = set(s.support(f)) | set(x)
    need(int(n) == len(sup), "the function depends on %s" % s.support(f))
    e = s.count(f) * 2 ** int(n) // (1 << s.n) * k // 8
    need(int(m) == e, "%s minterms are asked for, expected %d" % (m, e))
    need(le(got, f), "the minterms %s are not all from the function" % hx(s, got))
    need(set(s.support(got)) <= sup, "the result depends on %s" % s.support(got))
    need(s.count(got) * 2 ** int(n) == e * (1 << s.n), "the result has %d minterms over %s variables, expected %d" % (s.count(got) * 2 ** int(n) >> s.n, n, e))
    s.B[d] = got


# ---------------------------------------------------------------- counting and enumeration
G = "enum"


@op("support", "d f", "enum")
def _support(s, d, f, res):
    h, n = res.split()
    sup = s.support(f)
    need(int(h, 16) == s.cube([(v, 1) for v in sup]) and int(n) == len(sup), "the support is %s, expected %s" % (res, sup))
    s.B[d] = int(h, 16)


@op("supportidx", "f", "enum")
def _supportidx(s, f, res):
    n, ix, bits = res.split(":")
    sup = s.support(f)
    need(int(n) == len(sup) and [int(x) for x in ix.split()] == sup, "the support is %s, expected %s" % (ix, sup))
    need([int(x) for x in bits.split()] == [int(i in sup) for i in range(s.n)], "the support array is %s, expected %s" % (bits, sup))


@op("vsupport", "d FL", "enum")
def _vsupport(s, d, fs, res):
    a, ix, bits, sh = res.split(":")
    sup = sorted(set(v for f in fs for v in s.support(f)))
    h, n = a.split()
    need(int(h, 16) == s.cube([(v, 1) for v in sup]) and int(n) == len(sup) and [int(x) for x in ix.split()] == sup and
         [int(x) for x in bits.split()] == [int(i in sup) for i in range(s.n)], "the support of the vector is %s, expected %s" % (res, sup))
    x, y = sh.split()
    need(x == y, "Cudd_SharingSize gives %s, there are %s nodes" % (x, y))
    s.B[d] = int(h, 16)


@op("classify", "f f", "enum")
def _classify(s, f, g, res):
    t = res.split()
    a, b = set(s.support(f)), set(s.support(g))
    e = [s.cube([(v, 1) for v in x]) for x in (a & b, a - b, b - a)]
    need(t[0] == "1" and [int(x, 16) for x in t[1:]] == e, "the classes are %s" % res)


def close(a, b, eps=1e-9):
    return a == b or abs(a - b) <= eps * max(abs(a), abs(b))


def paths(s, f):
    raise NotImplementedError


@op("count", "f NV", "enum")
def _count(s, f, n, res):
    t = res.split()
    e = s.count(f) * 2 ** n // (1 << s.n) if n >= s.n else None
    if e is None:
        e = s.count(f) >> (s.n - n)
    fl = float(e) if e < 2 ** 1020 else None
    if fl is not None:
        need(close(float(t[0]), fl), "Cudd_CountMinterm gives %s, expected %d" % (t[0], e))
    from decimal import Decimal
    dl = Decimal(t[1]) if t[1] not in ("inf",) else None
    if dl is not None:
        need(abs(dl - e) <= Decimal(e) * Decimal("1e-12"), "Cudd_LdblCountMinterm gives %s, expected %d" % (t[1], e))
    else:
        need(e >= 2 ** 16000, "Cudd_LdblCountMinterm gives infinity")
    need(t[2] == "0", "Cudd_EpdCountMinterm fails: %s" % t[2])
    d = Decimal(t[3])
    need(abs(d - e) <= Decimal(e) * Decimal("1e-6"), "Cudd_EpdCountMinterm gives %s, expected %d" % (t[3], e))
    need(int(t[4]) == e, "Cudd_ApaCountMinterm gives %s, expected %d" % (t[4], e))
    size = int(t[7])
    if fl is not None:
        need(close(float(t[5]), fl / size if size else 0), "Cudd_Density gives %s" % t[5])
    need(int(t[6]) == size, "Cudd_DagSize gives %s, there are %d nodes" % (t[6], size))
    ones, alln = int(t[10]), int(t[11])
    need(float(t[8]) == alln, "Cudd_CountPath gives %s, there are %d paths" % (t[8], alln))
    need(float(t[9]) == ones, "Cudd_CountPathsToNonZero gives %s, there are %d paths" % (t[9], ones))


@op("cofmint", "f", "enum")
def _cofmint(s, f, res):
    t = [float(x) for x in res.split()]
    tot = float(1 << s.n)
    e = [s.count(s.c1(f, i)) / tot for i in range(s.n)] + [s.count(f) / tot]
    need(len(t) == len(e) and all(close(x, y) or abs(x - y) < 1e-300 for x, y in zip(t, e)), "the signatures are %s, expected %s" % (t, e))


@op("corr", "f f Q*", "enum")
def _corr(s, f, g, p, res):
    a, b = [float(x) for x in res.split()]
    eq = s.inot(f ^ g)
    need(close(a, s.count(eq) / float(1 << s.n)), "the correlation is %s, expected %s" % (a, s.count(eq) / float(1 << s.n)))
    w = 0.0
    for m in s.sat(eq):
        x = 1.0
        for i in range(s.n):
            x *= p[i] if m >> i & 1 else 1 - p[i]
        w += x
    need(abs(b - w) < 1e-9, "the weighted correlation is %s, expected %s" % (b, w))


@op("cubes", "f", "enum")
def _cubes(s, f, res):
    tot = 0
    for c in res.split():
        t = s.digits(c)
        need(t & tot == 0, "the cubes are not disjoint: %s" % res)
        tot |= t
    need(tot == f, "the cubes cover %s" % hx(s, tot))


@op("primes", "f f", "enum", BELOW)
def _primes(s, l, u, res):
    cs = [s.digits(c) for c in res.split()]
    tot = 0
    for c in cs:
        tot |= c
        need(is_prime(s, c, u), "%s is not a prime of the upper bound" % hx(s, c))
    need(le(l, tot), "the primes do not cover the lower bound")
    need(len(set(cs)) == len(cs), "a prime is enumerated twice")
    # (the cover can be redundant, see the known findings; but each prime covers something new of the lower bound)
    cov = 0
    for c in cs:
        need(c & l & ~cov, "the prime %s covers nothing new" % hx(s, c))
        cov |= c


@op("nodes", "f", "enum")
def _nodes(s, f, res):
    a, b, c = res.split()
    need(a == b and c == "1", "%s nodes enumerated, there are %s" % (a, b))


@op("pickcube", "f", "enum")
def _pickcube(s, f, res):
    t = res.split()
    if f == 0:
        need(t[0] == "0", "a cube of the empty set")
        return
    need(t[0] == "1" and le(s.digits(t[1]), f), "the cube %s is not in the set" % res)


@op("pickone", "d f SL", "enum")
def _pickone(s, d, f, vs, res):
    if f == 0:
        need(res.startswith("NULL"), "a minterm of the empty set")
        return
    r = int(res.split()[0], 16)
    l = s.lits(r)
    need(l is not None and sorted(i for i, p in l) == sorted(vs) and le(r, f), "%s is not a minterm of the set over %s" % (res, vs))
    s.B[d] = r


@op("pickarb", "f SL i1..9", "enum")
def _pickarb(s, f, vs, k, res):
    total = s.count(f) >> (s.n - len(vs))
    if total < k:
        need(res.startswith("NULL"), "%d minterms of a set that has %d" % (k, total))
        return
    r = [int(x, 16) for x in res.split()]
    need(len(set(r)) == k, "the minterms are not distinct: %s" % res)
    for x in r:
        l = s.lits(x)
        need(l is not None and sorted(i for i, p in l) == sorted(vs) and le(x, f), "%s is not a minterm of the set over %s" % (hx(s, x), vs))


def maskvars(s, r, f, vs, ms):
    if not le(r, f):
        return "is not a subset"
    if f and not r:
        return "is empty"
    for i in ms:
        if s.c0(r, i) and s.c1(r, i):
            return "leaves the mask variable %d open" % i


within("maskvars", "f SL ML", G, maskvars, gen=None, null=lambda s, f, v, m: f == 0)


@op("largestcube", "d f", "enum")
def _largest(s, d, f, res):
    h, n = res.split()
    c = int(h, 16)
    if f == 0:
        need(c == 0, "a cube of the empty set")
        s.B[d] = c
        return
    l = s.lits(c)
    need(l is not None and le(c, f) and len(l) == int(n), "%s is not a cube of the set with %s literals" % (h, n))
    s.B[d] = c


@op("shortest", "d f W", "enum")
def _shortest(s, d, f, w, res):
    a, sup = res.split(":")
    h, n, n2 = a.split()
    c = int(h, 16)
    if f == 0:
        need(c == 0, "a path in the empty set")
        s.B[d] = c
        return
    if not w:
        w = [1] * s.n
        weight = None
    best = min(sum(w[i] for i in range(s.n) if m >> i & 1) for m in s.sat(f))
    l = s.lits(c)
    need(l is not None and le(c, f), "%s is not a path of the set" % h)
    cost = sum(w[i] for i, p in l if p)
    need(int(n) == cost == best == int(n2), "the path costs %d, reported %s and %s, the cheapest one costs %d" % (cost, n, n2, best))
    need([int(x) for x in sup.split()] == [int(s.dep(f, i)) for i in range(s.n)], "the support is %s" % sup)
    s.B[d] = c


@op("largestprimeunate", "d f f", "enum", "UNATE")
def _lpu(s, d, f, ph, res):
    l = s.lits(ph)
    if l is None or f == 0:
        return
    phase = dict(l)
    if len(phase) < s.n:
        return
    for i in range(s.n):
        if phase[i] and not le(s.c0(f, i), s.c1(f, i)) or not phase[i] and not le(s.c1(f, i), s.c0(f, i)):
            return
    c = int(res.split()[0], 16)
    need(is_prime(s, c, f), "%s is not a prime" % res)
    # all primes of a unate function contain the minterm with the best phases; a largest one has the fewest literals
    best = min(sum(1 for i in range(s.n) if (m >> i & 1) == phase[i]) for m in s.sat(f))
    need(len(s.lits(c)) == best, "%s has %d literals, the largest prime has %d" % (res, len(s.lits(c)), best))
    s.B[d] = c


def dist(s, f):
    """table of the Hamming distances to the nearest minterm of f (list)"""
    d = [0 if f >> m & 1 else 99 for m in range(1 << s.n)]
    for i in range(s.n):
        for m in range(1 << s.n):
            o = d[m ^ (1 << i)] + 1
            if o < d[m]:
                d[m] = o
    return d


@op("closest", "d f f", "enum")
def _closest(s, d, f, g, res):
    h, n = res.split()[:2] if not res.startswith("NULL") else ("NULL", 0)
    if f == 0 or g == 0:
        if h != "NULL":
            s.B[d] = int(h, 16)
        return
    c = int(h, 16)
    dg = dist(s, g)
    best = min(dg[m] for m in s.sat(f))
    need(int(n) == best, "the distance is %s, expected %d" % (n, best))
    need(s.lits(c) is not None and le(c, f) and all(dg[m] == best for m in s.sat(c)), "%s is not a cube of the first set at distance %d" % (h, best))
    s.B[d] = c


@op("hamming", "f MT i0..12", "enum")
def _hamming(s, f, mt, ub, res):
    m = sum(b << i for i, b in enumerate(mt))
    best = min([bin(m ^ x).count("1") for x in s.sat(f)] or [99])
    need(int(res) == min(best, ub), "the distance is %s, expected %d (bound %d)" % (res, best, ub))


@op("decreasing", "f v", "enum")
def _decr(s, f, v, res):
    a, b = [int(x, 16) for x in res.split()]
    need(a == (s.F if le(s.c1(f, v), s.c0(f, v)) else 0), "Cudd_Decreasing gives %s" % res)
    need(b == (s.F if le(s.c0(f, v), s.c1(f, v)) else 0), "Cudd_Increasing gives %s" % res)


@op("essential", "d f", "enum")
def _essential(s, d, f, res):
    t = res.split()
    c = int(t[0], 16)
    for i in range(s.n):
        e = "%d%d" % (le(f, s.inot(s.V[i])), le(f, s.V[i]))
        if f:
            need(t[1 + i] == e, "Cudd_bddIsVarEssential for variable %d gives %s, expected %s" % (i, t[1 + i], e))
    if f:
        e = s.cube([(i, 1) for i in range(s.n) if le(f, s.V[i])] + [(i, 0) for i in range(s.n) if le(f, s.inot(s.V[i]))])
        need(c == e, "the essential cube is %s, expected %s" % (t[0], hx(s, e)))
    s.B[d] = c


@op("clauses", "f i0..0", "enum")
def _clauses(s, f, force, res):
    if res == "SKIP":
        return
    if f in (0, s.F):
        need(res.strip() == "", "clauses of a constant: %s" % res)
        return
    got = set()
    for c in res.split():
        v1, p1, v2, p2 = [int(x) for x in c.split(",")]
        got.add(frozenset([(v1, p1)] if v2 == -1 else [(v1, p1), (v2, p2)]))
    sup = s.support(f)
    lit = lambda i, p: s.inot(s.V[i]) if p else s.V[i]
    ones = [(i, p) for i in sup for p in (0, 1) if le(f, lit(i, p))]
    e = set(frozenset([l]) for l in ones)
    for a in itertools.combinations([(i, p) for i in sup for p in (0, 1)], 2):
        if a[0][0] != a[1][0] and not any(x in ones for x in a) and le(f, lit(*a[0]) | lit(*a[1])):
            e.add(frozenset(a))
    need(got == e, "the clauses are %s, expected %s" % (sorted(map(sorted, got)), sorted(map(sorted, e))))


value("symmetric", "f v v", G, lambda s, f, i, j: i == j or s.c0(s.c1(f, i), j) == s.c1(s.c0(f, i), j))
value("isvar", "f", G, lambda s, f: f in s.V)


# ---------------------------------------------------------------- manager operations
def accept(s, *a):
    pass


for nm, sg in (("m_gc", ""), ("m_next", "i1..200"), ("m_gcoff", "i0..1"), ("m_growth", "q1 i1..10"), ("m_cache", "i100..4000 i0..100"),
               ("m_auto", "R i1..200"), ("m_shuffle2", "P"), ("m_reserve", "i0..300")):
    OPS[nm] = (sg.split(), accept, "mgr", None)
REORD = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 21]


@op("m_reorder", "R i0..60", "mgr")
def _reorder(s, k, n, res):
    need(res != "0", "reordering with method %d fails" % k)


@op("m_shuffle", "P", "mgr")
def _shuffle(s, p, res):
    t = [int(x) for x in res.split()]
    if t[0] == 1:
        need(t[1:] == p, "the order after shuffling is %s, expected %s" % (t[1:], p))
    else:
        need(getattr(s, "grouped", False), "shuffling fails")


@op("m_debug", "", "mgr")
def _debug(s, res):
    check_debug(res)


def check_debug(res):
    t = res.split()
    need(t[0] == "debug" and t[1] == "0" and t[3] == "0" and t[5] == "ok", "the internal checks report %s" % res)


@op("m_all", "", "mgr")
def _all(s, res):
    check_all(s, res)


def check_all(s, res):
    need("NOT-CANONICAL" not in res, "equal functions with different nodes: %s" % res[res.find("NOT-CANONICAL"):][:200])
    b, a, z = (x.split() for x in res.split("|"))
    for i, (h, e) in enumerate(zip(b, s.B)):
        need(int(h, 16) == e, "register b%d holds %s, expected %s" % (i, h, hx(s, e)))
    for i, (h, e) in enumerate(zip(a, s.A)):
        need(same_add(h, e), "register a%d holds %s, expected %s" % (i, h, e))
    for i, (h, e) in enumerate(zip(z, s.Z)):
        need(sum(1 << k for k, c in enumerate(h) if c == "1") == e, "register z%d holds %s, expected %x" % (i, h, e))


def same_add(h, e):
    return all(close(float(x), y, 1e-11) or float(x) != float(x) and y != y for x, y in zip(h.split(","), e))


# ---------------------------------------------------------------- generator
def disjoint(tc, n, k, least=0):
    vs = tc.shuffle(list(range(n)))
    top = n // k
    m = tc.int(min(least, top), top)
    return [vs[i * m:(i + 1) * m] for i in range(k)]


class Program:
    """A generated program: parameters, lines of tokens"""


def gen_tt(tc, n):
    kind = tc.choice(4)
    bits = 1 << n
    if kind == 0:
        r = 0
        for i in range(0, bits, 16):
            r |= tc.choice(1 << min(16, bits)) << i
    elif kind == 1:
        r = 0
        for _ in range(tc.int(0, 5)):
            r |= 1 << tc.choice(bits)
    elif kind == 2:
        r = (1 << bits) - 1
        for _ in range(tc.int(0, 5)):
            r &= ~(1 << tc.choice(bits))
    else:
        k = min(n, 3)
        vs = [tc.choice(n) for _ in range(k)]
        t = tc.choice(1 << (1 << k))
        r = 0
        for m in range(bits):
            if t >> sum((m >> v & 1) << j for j, v in enumerate(vs)) & 1:
                r |= 1 << m
    return r & ((1 << bits) - 1)


def gen_line(tc, n, regs, name):
    """The lines of one operation (with the operations that establish its preconditions)"""
    sig, fn, group, special = OPS[name]
    pre = []
    toks = []
    reg = lambda: tc.choice(regs)
    fpos = []
    last = []
    for x in sig:
        if x == "d":
            toks.append(reg())
        elif x == "f":
            fpos.append(len(toks))
            toks.append(reg())
        elif x == "v":
            toks.append(tc.choice(n))
        elif x == "N":
            toks.append(n)
        elif x == "NV":
            toks.append(n + tc.weighted([(5, 0), (3, 1), (2, 40), (2, 300), (1, 1100)]))
        elif x == "F*":
            toks += [reg() for _ in range(n)]
        elif x == "FL":
            k = tc.int(0, 4)
            toks += [k] + [reg() for _ in range(k)]
        elif x in ("L", "L1"):
            v = tc.shuffle(list(range(n)))
            v = v[:tc.int(1 if x == "L1" else 0, n)]
            last = v
            toks += [len(v)] + v
        elif x == "SL":
            # all variables: a superset of every support
            v = tc.shuffle(list(range(n)))
            toks += [len(v)] + v
        elif x == "ML":
            v = tc.shuffle(list(range(n)))[:tc.int(0, n)]
            toks += [len(v)] + v
        elif x in ("LL", "LLL"):
            if n < len(x):
                return [["not", reg(), reg()]]
            for v in disjoint(tc, n, len(x), 1):
                toks += [len(v)] + v
                last = v
        elif x == "P":
            toks += [n] + tc.shuffle(list(range(n)))
        elif x == "PH":
            p = [tc.choice(2) for _ in last] if tc.bool(0.7) else []
            toks += [len(p)] + p
        elif x == "T":
            toks += [n] + [tc.choice(3) for _ in range(n)]
        elif x == "MT":
            toks += [n] + [tc.choice(2) for _ in range(n)]
        elif x == "W":
            w = [tc.choice(6) for _ in range(n)] if tc.bool(0.7) else []
            toks += [len(w)] + w
        elif x == "IV":
            a, b = sorted((tc.choice(1 << len(last)), tc.choice(1 << len(last))))
            toks += [a, b]
        elif x == "R":
            toks.append(tc.pick(REORD))
        elif x == "q":
            toks.append(tc.pick([1.0, 0.5, 1.5, 2.0, 0.0]))
        elif x == "q1":
            toks.append(tc.pick([1.0, 1.2, 1.5, 2.0]))
        elif x == "Q*":
            toks += [tc.choice(11) / 10.0 for _ in range(n)]
        elif x[0] == "i":
            lo, hi = x[1:].split("..")
            toks.append(tc.int(int(lo), int(hi)))
        else:
            raise AssertionError(x)
    if special in ("MAXEXP", "CUBEIN", "CPROJ", "UNATE"):
        # distinct operands
        for i in range(1, len(fpos)):
            while toks[fpos[i]] in [toks[j] for j in fpos[:i]]:
                toks[fpos[i]] = (toks[fpos[i]] + 1) % regs
    fr = [toks[i] for i in fpos]
    if len(fr) > 1 and len(set(fr)) == len(fr) and tc.bool(0.4):
        pre += related(tc, n, regs, fr)
    if special == "LU":
        # operand 1 := operand 1 & operand 2
        pre.append(["and", toks[fpos[0]], toks[fpos[0]], toks[fpos[1]]])
    elif special == "NOAUTO":
        pre.append(["m_auto", 0, 4000])
    elif special == "CUBE":
        v = tc.shuffle(list(range(n)))[:tc.int(0, n)]
        pre.append(["indcube", toks[fpos[-1]], len(v)] + v)
    elif special in ("LITCUBE2", "MAYBECUBE") and (special == "LITCUBE2" or tc.bool(0.7)):
        pre.append(["arrcube", toks[fpos[-1]], n] + [tc.weighted([(3, 2), (1, 0), (1, 1)]) for _ in range(n)])
    elif special == "CUBEIN":
        pre.append(["arrcube", toks[fpos[0]], n] + [tc.weighted([(1, 2), (2, 0), (2, 1)]) for _ in range(n)])
        if tc.bool(0.8) and toks[fpos[0]] != toks[fpos[1]]:
            pre.append(["or", toks[fpos[1]], toks[fpos[1]], toks[fpos[0]]])
    elif special == "MAXEXP":
        if len(set(toks[i] for i in fpos)) == 3:
            l = [tc.weighted([(1, 2), (2, 0), (2, 1)]) for _ in range(n)]
            u = [x if tc.bool(0.3) else 2 for x in l]
            pre.append(["arrcube", toks[fpos[0]], n] + l)
            pre.append(["arrcube", toks[fpos[1]], n] + u)
            if tc.bool(0.8):
                pre.append(["or", toks[fpos[2]], toks[fpos[2]], toks[fpos[0]]])
    elif special == "PRIO":
        # a relation between the first two vectors
        k = toks[2]
        rest = [v for v in range(n) if v not in toks[3:3 + k] + toks[4 + k:4 + 2 * k]]
        t = (fr[0] + 1) % regs
        pre.append(["indcube", t, len(rest)] + rest)
        pre.append(["exist", fr[0], fr[0], t])
    elif special == "CPROJ":
        if toks[fpos[0]] != toks[fpos[1]]:
            pre.append(["arrcube", toks[fpos[1]], n] + [tc.choice(3) for _ in range(n)])
    elif special == "UNATE":
        # a union of cubes whose literals have the phases of the second operand
        ph = [tc.choice(2) for _ in range(n)]
        f, p = toks[fpos[0]], toks[fpos[1]]
        t = (max(f, p) + 1) % regs
        if t in (f, p):
            t = (t + 1) % regs
        if f != p and t not in (f, p):
            pre.append(["arrcube", p, n] + ph)
            pre.append(["const", f, 0])
            for _ in range(tc.int(1, 4)):
                pre.append(["arrcube", t, n] + [x if tc.bool(0.4) else 2 for x in ph])
                pre.append(["or", f, f, t])
    return pre + [[name] + toks]


def related(tc, n, regs, fr):
    """Operations that establish relations between operands which random functions hardly have: inclusion (of all or of all but one
    minterm, outside a third function), disjointness, complements"""
    a, b = fr[0], fr[1]
    if tc.bool(0.5):
        a, b = b, a
    out = []
    k = tc.choice(6)
    if k == 0:
        out.append(["and", b, b, a])
    elif k == 1:
        out.append(["or", b, b, a])
    elif k == 2:
        out.append(["not", b, a])
    elif k == 3:
        out += [["or", b, b, a], ["xor", b, b, a]]            # disjoint
    elif k == 4:
        out += [["not", b, b], ["or", b, b, a], ["not", b, b]]  # inside the complement
    if len(fr) > 2:
        c = fr[2]
        k2 = tc.choice(6)
        out += [[["ite", c, b, c, a]], [["ite", c, a, b, c]], [["ite", c, b, a, c], ["not", c, c]], [["and", c, c, b]], [["or", c, c, a]],
                [["ite", c, a, c, b]]][k2]
    free = [r for r in range(regs) if r not in fr]
    if free and tc.bool(0.35):
        t = tc.pick(free)
        out += [["arrcube", t, n] + [tc.choice(2) for _ in range(n)]]
        x = tc.pick(fr)
        out += [["xor", x, x, t]]
    return out


def decode(st, name, toks):
    t = Toks(toks)
    args = []
    for x in OPS[name][0]:
        if x == "d":
            args.append(t.int())
        elif x == "f":
            args.append(st.B[t.int()])
        elif x == "F*":
            args.append([st.B[t.int()] for _ in range(st.n)])
        elif x == "FL":
            args.append([st.B[i] for i in t.list()])
        elif x in ("v", "N", "NV", "R") or x[0] == "i":
            args.append(t.int())
        elif x in ("L", "L1", "SL", "ML", "P", "PH", "T", "MT", "W"):
            args.append(t.list())
        elif x in ("LL", "LLL"):
            for _ in x:
                args.append(t.list())
        elif x == "IV":
            args += [t.int(), t.int()]
        elif x in ("q", "q1"):
            args.append(t.float())
        elif x == "Q*":
            args.append([t.float() for _ in range(st.n)])
        else:
            raise AssertionError(x)
    return args


def text(p):
    o = ["case %d %d %d %d %d" % (p.n, p.nz, p.slots, p.cache, p.regs)]
    for l in p.lines:
        o.append(" ".join(str(x) for x in l))
    return "\n".join(o + ["end", ""])


def check_program(p, server, extra=None):
    lines = server.run(text(p))
    st = State(p.n, p.nz, p.regs)
    need(len(lines) == len(p.lines) + 1, "%d result lines for %d operations" % (len(lines), len(p.lines) + 1))
    for l, res in zip(p.lines, lines):
        name = l[0]
        try:
            need(not res.startswith("UNKNOWN"), "unknown operation")
            if name == "tt":
                e = int(l[2], 16)
                need(int(res, 16) == e, "the function built from a truth table is %s" % res)
                st.B[l[1]] = e
            elif name in OPS:
                OPS[name][1](st, *(decode(st, name, l[1:]) + [res]))
            else:
                extra(st, l, res)
        except Violation as v:
            raise Violation("%s: %s" % (" ".join(str(x) for x in l), v))
    fin, dbg = lines[-1].split(" ; ")
    try:
        check_all(st, fin)
        check_debug(dbg)
        t = dbg.split()
        need(t[7] == "0" and t[9] == "0", "nodes are still referenced after everything has been released: %s" % dbg)
    except Violation as v:
        raise Violation("at the end: %s" % v)
    return st


MGR = [(6, "m_gc"), (2, "m_reorder"), (2, "m_shuffle"), (2, "m_auto"), (2, "m_next"), (1, "m_gcoff"), (1, "m_growth"), (1, "m_cache"), (1, "m_shuffle2"),
       (1, "m_reserve"), (1, "m_debug"), (1, "m_all")]


def gen_program(tc, names, nmin=2, nmax=7, big=9, length=24, mgr=0.15, extra=None, nz=0):
    p = Program()
    p.n = tc.weighted([(4, 4), (3, 3), (2, 2), (4, 5), (4, 6), (2, 7), (1, big)])
    p.n = max(nmin, min(p.n, max(nmax, big)))
    p.nz = nz * p.n
    p.slots = tc.weighted([(3, 256), (3, 2), (3, 16)])
    p.cache = tc.weighted([(3, 262144), (3, 8), (3, 64)])
    p.regs = 6
    p.lines = []
    for r in range(3):
        p.lines.append(["tt", r, None])
    for l in p.lines:
        l[2] = "%0*x" % (16 * max(1, (1 << p.n) // 64), gen_tt(tc, p.n))
    auto = tc.bool(0.25)
    if auto:
        p.lines += gen_line(tc, p.n, p.regs, "m_auto")

    def one(tc):
        if tc.bool(mgr):
            p.lines.extend(gen_line(tc, p.n, p.regs, tc.weighted(MGR)))
        elif tc.bool(0.1):
            p.lines.append(["tt", tc.choice(p.regs), "%0*x" % (16 * max(1, (1 << p.n) // 64), gen_tt(tc, p.n))])
        elif extra and tc.bool(0.6):
            p.lines.extend(extra(tc, p))
        else:
            p.lines.extend(gen_line(tc, p.n, p.regs, tc.pick(names)))
    tc.list(one, 1, length, 0.93)
    return p


def group(*gs):
    return sorted(n for n, o in OPS.items() if o[2] in gs)


BASIC = ["and", "or", "not", "xor", "ite", "xnor", "nand", "nor"]


def run_known(server, program):
    """The result lines of a recorded program, or None if the process crashes or hangs"""
    try:
        return server.run(program)
    except Violation:
        server.stop()
        return None
