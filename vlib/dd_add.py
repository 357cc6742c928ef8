"""Algebraic decision diagrams: operations on tuples of values. The generator runs the reference along, so that all values stay exactly
representable (multiples of 2^-20 below 2^30, or infinite)."""
import math

from vlib import dd
from vlib.dd import need, hx
from vlib.pbt import Violation

INF = float("inf")
AOPS = {}


class Drop(Exception):
    pass


def nice(t):
    for x in t:
        if x != x or (abs(x) != INF and (abs(x) > 2 ** 30 or x * 2 ** 20 != int(x * 2 ** 20))):
            raise Drop()
    return tuple(x + 0.0 for x in t)


def add(name, sig):
    def deco(fn):
        AOPS[name] = (sig.split(), fn)
        return fn
    return deco


def simple(name, sig, fn):
    AOPS[name] = (sig.split(), fn)


def zero_one(t):
    if any(x not in (0.0, 1.0) for x in t):
        raise Drop()
    return t


def pw(f):
    return lambda s, *a: nice([f(*x) for x in zip(*a)])


def finite(t):
    if any(abs(x) == INF for x in t):
        raise Drop()
    return t


def mul(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


def plus(x, y):
    return x + y


def div(x, y):
    if y == 0:
        raise Drop()
    if x == 0:
        return 0.0
    return x / y


APPLY = [plus, mul, lambda x, y: x if x >= y else 0.0, lambda x, y: y if y != 0 else x, div, lambda x, y: x - y, min, max,
         lambda x, y: 1.0 if x > y else 0.0, lambda x, y: INF if x == y else min(x, y), lambda x, y: x if x == y else 0.0,
         lambda x, y: max(x, y), lambda x, y: 1.0 - x * y, lambda x, y: 1.0 - max(x, y), lambda x, y: float(x != y), lambda x, y: float(x == y)]


@add("a_apply", "i0..15 D a a")
def _apply(s, k, f, g):
    if k >= 11:
        zero_one(f), zero_one(g)
    return pw(APPLY[k])(s, f, g)


@add("a_vals", "D VALS")
def _vals(s, v):
    return nice(v)


@add("a_const", "D c")
def _const(s, c):
    return nice([c] * (1 << s.n))


@add("a_var", "D v")
def _var(s, v):
    return tuple(float(m >> v & 1) for m in range(1 << s.n))


@add("a_log", "D a")
def _log(s, f):
    if any(x <= 0 or x == INF for x in f):
        raise Drop()
    return ("approx", [math.log(x) for x in f])


simple("a_ite", "D b a a", pw(lambda f, g, h: g if f else h))
simple("a_cmpl", "D a", pw(lambda f: 0.0 if f else 1.0))
simple("a_negate", "D a", pw(lambda f: -f))
simple("a_round", "D a i0..0", lambda s, f, k: nice([float(math.ceil(x)) for x in finite(f)]))
simple("a_max", "a", lambda s, f: ["%.17g %.17g" % (max(f), min(f))])


@add("a_itec", "b a a")
def _itec(s, f, g, h):
    r = pw(lambda f, g, h: g if f else h)(s, f, g, h)

    def check(res):
        if res.strip() == "NONCONST":
            need(len(set(r)) > 1, "reported as not constant")
        else:
            need(tuple(fmt(res)) == r, "the result is %s, expected %s" % (res, r))
    return check


@add("a_evalc", "b a")
def _evalc(s, f, g):
    def check(res):
        if res.strip() == "NONCONST":
            need(len(set(y for x, y in zip(f, g) if x)) > 1, "reported as not constant")
        elif any(f):
            # the result need not be constant, but it is the second operand wherever the first one is 1
            got = fmt(res)
            need(all(z == y for x, y, z in zip(f, g, got) if x), "the result %s is not the second operand where the first one is 1" % res)
            need(len(set(g)) == 1 or len(set(y for x, y in zip(f, g) if x)) > 1 or len(set(got)) == 1, "%s is not constant" % res)
    return check


@add("a_bit", "D a i0..8")
def _bit(s, f, k):
    if any(x != int(x) or x < 0 for x in finite(f)):
        raise Drop()
    return tuple(float(int(x) >> k & 1) for x in f)


@add("a_inv", "D a e")
def _inv(s, f, e):
    if any(abs(x) < e for x in finite(f)):
        return "NULL"
    if 0.0 in f:
        raise Drop()
    return nice([1 / x for x in f])


simple("a_leq", "a a", lambda s, f, g: ["%d" % all(x <= y for x, y in zip(f, g))])


def fold(s, f, vs, fn):
    f = list(f)
    for v in vs:
        for m in range(1 << s.n):
            if not m >> v & 1:
                f[m] = f[m | 1 << v] = fn(f[m], f[m | 1 << v])
    return f


@add("a_exist", "i0..2 D a L")
def _exist(s, k, f, vs):
    if k == 2:
        zero_one(f)
    finite(f)
    return nice(fold(s, f, vs, (plus, mul, max)[k]))


@add("a_tobdd", "d a i0..4 c c")
def _tobdd(s, f, k, x, y):
    if k == 3:
        if any(v != int(v) or v < 0 for v in finite(f)) or not 0 <= x < 20 or x != int(x):
            raise Drop()
        p = lambda v: int(v) >> int(x) & 1
    else:
        if k == 2 and x > y:
            raise Drop()
        p = (lambda v: v >= x, lambda v: v > x, lambda v: x <= v <= y, None, lambda v: v != 0)[k]
    return ("bdd", sum(1 << m for m, v in enumerate(f) if p(v)))


simple("a_frombdd", "D f", lambda s, f: tuple(float(f >> m & 1) for m in range(1 << s.n)))


@add("a_compose", "D a b v")
def _compose(s, f, g, v):
    return tuple(f[m | 1 << v] if g[m] else f[m & ~(1 << v)] for m in range(1 << s.n))


@add("a_vcompose", "D a i0..1 F*")
def _vcompose(s, f, k, gs):
    return tuple(f[sum((g >> m & 1) << i for i, g in enumerate(gs))] for m in range(1 << s.n))


@add("a_nonsim", "D a L F*")
def _nonsim(s, f, vs, gs):
    gs = [s.exist(g, vs) if i in vs else s.V[i] for i, g in enumerate(gs)]
    return _vcompose(s, f, 0, gs)


@add("a_essential", "a")
def _essential(s, f):
    lits = []
    for v in range(s.n):
        for p in (0, 1):
            if all(f[m] == 0 for m in range(1 << s.n) if (m >> v & 1) != p):
                lits.append((v, p))

    def check(res):
        if not any(f):
            return
        e = s.cube(lits)
        need(int(res, 16) == e, "the essential literals are %s, expected %s" % (res, lits))
    return check


@add("a_permute", "D a P")
def _permute(s, f, p):
    return tuple(f[sum((m >> p[i] & 1) << i for i in range(s.n))] for m in range(1 << s.n))


@add("a_swap", "D a LL")
def _swap(s, f, x, y):
    p = list(range(s.n))
    for i, j in zip(x, y):
        p[i], p[j] = j, i
    return _permute(s, f, p)


@add("a_cofactor", "D a L1 PHF")
def _cofactor(s, f, x, ph):
    a = sum(1 << v for v in x)
    b = sum(1 << v for v, p in zip(x, ph) if p)
    return tuple(f[m & ~a | b] for m in range(1 << s.n))


@add("a_constrain", "i0..1 D a f")
def _constrain(s, k, f, c):
    return ("care", f, c)


@add("a_matmul", "i0..2 D a a L")
def _matmul(s, k, f, g, vs):
    if k < 2:
        return nice(fold(s, [mul(x, y) for x, y in zip(finite(f), finite(g))], vs, plus))
    if -INF in f or -INF in g:
        raise Drop()
    return nice(fold(s, [x + y for x, y in zip(f, g)], vs, min))


simple("a_outer", "D a a a", lambda s, m, r, c: nice([min(x, y + z) for x, y, z in zip(m, r, c)]) if -INF not in r and -INF not in c else dropit())


def dropit():
    raise Drop()


@add("a_walsh", "D LL")
def _walsh(s, x, y):
    return tuple(-1.0 if sum((m >> i & 1) & (m >> j & 1) for i, j in zip(x, y)) % 2 else 1.0 for m in range(1 << s.n))


@add("a_residue", "D RES")
def _residue(s, n, m, o, top):
    r = []
    for k in range(1 << s.n):
        bits = [k >> (top + i) & 1 for i in range(n)]
        if o & 1:
            bits = bits[::-1]
        v = sum(b << i for i, b in enumerate(bits))
        if o & 2 and bits[-1]:
            v -= 1 << n
        r.append(float(v % m))
    return tuple(r)


simple("a_xeqy", "D LL", lambda s, x, y: tuple(float(s.val(m, x) == s.val(m, y)) for m in range(1 << s.n)))
simple("a_hamming", "D LL", lambda s, x, y: tuple(float(sum((m >> i & 1) != (m >> j & 1) for i, j in zip(x, y))) for m in range(1 << s.n)))


@add("a_count", "a")
def _count(s, f):
    def check(res):
        t = res.split()
        need(float(t[0]) == sum(1 for x in f if x != 0), "%s minterms with a non-zero value, expected %d" % (t[0], sum(1 for x in f if x != 0)))
        need(t[3] == t[4], "%s nodes reported, there are %s" % (t[3], t[4]))
        need(t[5] == t[6] == str(len(set(f))), "%s leaves reported, there are %d" % (t[5], len(set(f))))
        need(float(t[1]) >= float(t[2]) >= (1 if any(f) else 0), "numbers of paths %s and %s" % (t[1], t[2]))
    return check


@add("a_cubes", "a")
def _cubes(s, f):
    def check(res):
        seen = 0
        for w in res.split():
            c, v = w.split(":")
            b = s.digits(c)
            need(not b & seen, "the cubes overlap")
            seen |= b
            need(all(f[m] == float(v) for m in range(1 << s.n) if b >> m & 1), "cube %s has not the value %s" % (c, v))
        need(all(seen >> m & 1 or f[m] == 0 for m in range(1 << s.n)), "the cubes do not cover all non-zero values")
        need(all(not seen >> m & 1 or f[m] != 0 for m in range(1 << s.n)), "a cube has the value 0")
    return check


@add("a_support", "a")
def _support(s, f):
    return [" ".join(str(int(any(f[m] != f[m ^ 1 << i] for m in range(1 << s.n)))) for i in range(s.n))]


simple("a_equal", "a a e", lambda s, f, g, e: ["%d" % all(x == y or abs(x - y) < e for x, y in zip(f, g))])
simple("a_eval", "a", lambda s, f: [",".join("%.17g" % x for x in f)])


# ---------------------------------------------------------------- running
def decode(s, name, toks):
    t = dd.Toks([str(x) for x in toks])
    args, dst = [], None
    for x in AOPS[name][0]:
        if x in ("D", "d"):
            dst = (x, t.int())
        elif x == "a":
            args.append(s.A[t.int()])
        elif x == "b":
            args.append(zero_one(s.A[t.int()]))
        elif x == "f":
            args.append(s.B[t.int()])
        elif x == "F*":
            args.append([s.B[t.int()] for _ in range(s.n)])
        elif x == "v" or x[0] == "i":
            args.append(t.int())
        elif x in ("c", "e"):
            args.append(t.float())
        elif x in ("L", "L1", "P", "PHF"):
            args.append(t.list())
        elif x == "LL":
            args += [t.list(), t.list()]
        elif x == "VALS":
            args.append([t.float() for _ in range(1 << s.n)])
        elif x == "RES":
            args += [t.int() for _ in range(4)]
        else:
            raise AssertionError(x)
    return dst, args


def fmt(h):
    return [float(x) for x in h.split(",")]


def store(s, dst, r):
    if dst is None:
        return
    if isinstance(r, tuple) and r and r[0] == "bdd":
        s.B[dst[1]] = r[1]
    elif r == "NULL":
        pass
    else:
        s.A[dst[1]] = r


def check_op(s, name, toks, res):
    dst, args = decode(s, name, toks)
    r = AOPS[name][1](s, *args)
    if callable(r):
        r(res)
    elif isinstance(r, list):
        need(res.strip() in r, "printed %s, expected %s" % (res, " or ".join(r)))
    elif r == "NULL":
        need(res.startswith("NULL"), "there is a result although a value is below the limit")
    else:
        need(not res.startswith("NULL"), "no result")
        if r[0] == "bdd":
            need(int(res, 16) == r[1], "the result is %s, expected %s" % (res, hx(s, r[1])))
        elif r[0] == "approx":
            got = fmt(res)
            need(all(dd.close(x, y) or abs(x - y) < 1e-9 for x, y in zip(got, r[1])), "the result is %s, expected %s" % (res, r[1]))
            r = tuple(got)
        elif r[0] == "care":
            got = fmt(res)
            need(all(x == y for m, (x, y) in enumerate(zip(got, r[1])) if r[2] >> m & 1), "the result %s differs from %s inside the care set" % (res, r[1]))
            r = tuple(got)
        else:
            need(tuple(fmt(res)) == r, "the result is %s, expected %s" % (res, ",".join("%.17g" % x for x in r)))
        store(s, dst, r)


VALUES = [0.0, 1.0, 2.0, 3.0, -1.0, 0.5, -2.5, 4.0, 7.0, 12.0, INF, -INF]


def num(x):
    return "inf" if x == INF else "-inf" if x == -INF else "%g" % x


def gen_op(tc, s, p):
    """One operation with its operands; the state is advanced. Returns [] if the operands do not fit."""
    name = tc.pick(sorted(AOPS))
    toks = []
    n = p.n
    last = []
    for x in AOPS[name][0]:
        if x in ("D", "d", "a", "f"):
            toks.append(tc.choice(p.regs))
        elif x == "b":
            ok = [i for i in range(p.regs) if all(v in (0.0, 1.0) for v in s.A[i])]
            if not ok:
                return []
            toks.append(tc.pick(ok))
        elif x == "F*":
            toks += [tc.choice(p.regs) for _ in range(n)]
        elif x == "v":
            toks.append(tc.choice(n))
        elif x[0] == "i":
            lo, hi = x[1:].split("..")
            toks.append(tc.int(int(lo), int(hi)))
        elif x == "c":
            toks.append(num(tc.pick(VALUES)))
        elif x == "e":
            toks.append(num(tc.pick([0.25, 0.5, 1.0, 3.0])))
        elif x in ("L", "L1"):
            v = tc.shuffle(list(range(n)))
            last = v[:tc.int(1 if x == "L1" else 0, n)]
            toks += [len(last)] + last
        elif x == "PHF":
            toks += [len(last)] + [tc.choice(2) for _ in last]
        elif x == "LL":
            if n < 2:
                return []
            for v in dd.disjoint(tc, n, 2, 1):
                toks += [len(v)] + v
        elif x == "P":
            toks += [n] + tc.shuffle(list(range(n)))
        elif x == "VALS":
            pool = [tc.pick(VALUES[:-2] if tc.bool(0.9) else VALUES) for _ in range(tc.int(1, 5))]
            toks += [num(tc.pick(pool)) for _ in range(1 << n)]
        elif x == "RES":
            k = tc.int(1, n)
            toks += [k, tc.int(2, 7), tc.choice(4), tc.int(0, n - k)]
        else:
            raise AssertionError(x)
    try:
        dst, args = decode(s, name, toks)
        r = AOPS[name][1](s, *args)
    except Drop:
        return []
    out = [[name] + toks]
    if isinstance(r, tuple) and r[0] in ("approx", "care"):
        # not determined: the result is checked and replaced
        out.append(["a_const", dst[1], "1"])
        r = (1.0,) * (1 << n)
    if dst:
        store(s, dst, r)
    return out


def gen_program(tc, length=26, mgr=0.18):
    p = dd.Program()
    p.n = tc.weighted([(4, 3), (3, 2), (4, 4), (3, 5), (1, 6)])
    p.nz, p.regs = 0, 6
    p.slots = tc.weighted([(3, 256), (3, 2), (3, 16)])
    p.cache = tc.weighted([(3, 262144), (3, 8), (3, 64)])
    p.lines = []
    s = dd.State(p.n, 0, p.regs)

    def tt(r):
        v = dd.gen_tt(tc, p.n)
        p.lines.append(["tt", r, "%0*x" % (16 * max(1, (1 << p.n) // 64), v)])
        s.B[r] = v
    tt(0)
    for r in range(2):
        pool = [tc.pick(VALUES) for _ in range(tc.int(1, 5))]
        t = [tc.pick(pool) for _ in range(1 << p.n)]
        p.lines.append(["a_vals", r] + [num(x) for x in t])
        s.A[r] = tuple(t)
    p.lines.append(["a_frombdd", 2, 0])
    s.A[2] = AOPS["a_frombdd"][1](s, s.B[0])
    if tc.bool(0.25):
        p.lines += dd.gen_line(tc, p.n, p.regs, "m_auto")

    def one(tc):
        if tc.bool(mgr):
            p.lines.extend(dd.gen_line(tc, p.n, p.regs, tc.weighted(dd.MGR)))
        elif tc.bool(0.08):
            tt(tc.choice(p.regs))
        else:
            p.lines.extend(gen_op(tc, s, p))
    tc.list(one, 1, length, 0.93)
    return p


def extra(s, l, res):
    check_op(s, l[0], l[1:], res)
