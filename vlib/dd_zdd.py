"""Zero-suppressed decision diagrams: operations on families of sets (integers with one bit per set)."""
from vlib import dd
from vlib.dd import need, hx

ZOPS = {}
COVER, ALIGN = "cover", "align"


class Drop(Exception):
    pass


def zop(name, sig, kind=""):
    def deco(fn):
        ZOPS[name] = (sig.split(), fn, kind)
        return fn
    return deco


def simple(name, sig, fn, kind=""):
    ZOPS[name] = (sig.split(), fn, kind)


def sets(f):
    r = []
    i = 0
    while f:
        k = (f & -f).bit_length() - 1
        r.append(k)
        f &= f - 1
    return r


def fam(it):
    r = 0
    for k in it:
        r |= 1 << k
    return r


simple("z_sets", "D FAM", lambda s, f: f)
simple("z_var", "D zv", lambda s, v: fam(m for m in range(1 << s.nz) if m >> v & 1))
simple("z_union", "D z z", lambda s, f, g: f | g)
simple("z_inter", "D z z", lambda s, f, g: f & g)
simple("z_diff", "D z z", lambda s, f, g: f & ~g)
simple("z_ite", "D z z z", lambda s, f, g, h: f & g | ~f & h)
simple("z_sub0", "D z zv", lambda s, f, v: fam(m for m in sets(f) if not m >> v & 1))
simple("z_sub1", "D z zv", lambda s, f, v: fam(m ^ 1 << v for m in sets(f) if m >> v & 1))
simple("z_change", "D z zv", lambda s, f, v: fam(m ^ 1 << v for m in sets(f)))
simple("z_uprod", "D z z", lambda s, f, g: fam(a | b for a in sets(f) for b in sets(g)))


@zop("z_one", "D i0..8")
def _one(s, i):
    # the function 1 on the variables from level i on
    if i:
        raise Drop()
    return (1 << (1 << s.nz)) - 1


def consistent(s, m):
    return all(m >> 2 * i & 3 != 3 for i in range(s.nz // 2))


def cover(s, f):
    if not all(consistent(s, m) for m in sets(f)):
        raise Drop()
    return f


def quotient(f, g):
    q = None
    for c in sets(g):
        k = fam(m ^ c for m in sets(f) if m & c == c)
        q = k if q is None else q & k
    return q


@zop("z_prod", "D z z", COVER)
def _prod(s, f, g):
    cover(s, f), cover(s, g)
    return fam(m for m in (a | b for a in sets(f) for b in sets(g)) if consistent(s, m))


def division(name, kind):
    @zop(name, "D z z", kind)
    def _div(s, f, g):
        if g == 0:
            raise Drop()
        if kind == COVER:
            cover(s, f), cover(s, g)
        return quotient(f, g)


division("z_divide", "")
division("z_divideF", "")
division("z_wdiv", COVER)
division("z_wdivF", COVER)


@zop("z_diffc", "z z")
def _diffc(s, f, g):
    def check(res):
        r = res.strip()
        empty = r != "NONCONST" and "1" not in r
        need(empty == (f & ~g == 0), "printed %s for the inclusion test" % r)
    return check


@zop("z_count", "z")
def _count(s, f):
    def check(res):
        t = res.split()
        n = len(sets(f))
        need(int(t[0]) == n and float(t[1]) == n, "%s / %s sets, expected %d" % (t[0], t[1], n))
        need(float(t[2]) == n, "%s minterms, expected %d" % (t[2], n))
    return check


@zop("z_paths", "z")
def _paths(s, f):
    def check(res):
        r = 0
        for w in res.split():
            need(len(w) == s.nz, "path of length %d" % len(w))
            m = fam([]) + sum(1 << i for i, ch in enumerate(w) if ch == "1")
            need(not r >> m & 1, "the set %s is enumerated twice" % w)
            r |= 1 << m
        need(r == f, "the paths give %x, expected %x" % (r, f))
    return check


def covfun(s, f):
    r = 0
    for m in sets(f):
        r |= s.cube([(i, 1) for i in range(s.n) if m >> 2 * i & 1] + [(i, 0) for i in range(s.n) if m >> 2 * i & 2])
    return r


@zop("z_compl", "D z", COVER)
def _compl(s, f):
    return ("compl", covfun(s, cover(s, f)))


@zop("z_isop", "db D f f", COVER)
def _isop(s, l, u):
    return ("isop", l & u, u)


simple("z_cover", "db z", lambda s, f: ("bdd", covfun(s, cover(s, f))), COVER)
simple("z_frombdd", "D f", lambda s, f: f, ALIGN)
simple("z_tobdd", "db z", lambda s, f: ("bdd", f), ALIGN)
simple("z_support", "db z", lambda s, f: ("bdd", s.cube([(i, 1) for i in range(s.nz) if any(m >> i & 1 for m in sets(f))])), ALIGN)


def decode(s, name, toks):
    t = dd.Toks([str(x) for x in toks])
    args, dst = [], []
    for x in ZOPS[name][0]:
        if x in ("D", "db"):
            dst.append((x, t.int()))
        elif x == "z":
            args.append(s.Z[t.int()])
        elif x == "f":
            args.append(s.B[t.int()])
        elif x == "zv" or x[0] == "i":
            args.append(t.int())
        elif x == "FAM":
            args.append(sum(1 << k for k, ch in enumerate(t.str()) if ch == "1"))
        else:
            raise AssertionError(x)
    return dst, args


def zfam(h):
    return sum(1 << k for k, ch in enumerate(h) if ch == "1")


def check_op(s, name, toks, res):
    dst, args = decode(s, name, toks)
    r = ZOPS[name][1](s, *args)
    if callable(r):
        return r(res)
    need("NULL" not in res, "no result")
    if isinstance(r, int):
        need(zfam(res) == r, "the result is %x, expected %x" % (zfam(res), r))
        s.Z[dst[0][1]] = r
    elif r[0] == "bdd":
        need(int(res, 16) == r[1], "the result is %s, expected %s" % (res, hx(s, r[1])))
        s.B[dst[0][1]] = r[1]
    elif r[0] == "compl":
        z = zfam(res)
        need(all(consistent(s, m) for m in sets(z)), "the complement contains an inconsistent cube")
        need(covfun(s, z) == s.inot(r[1]), "the cover of the complement is the function %s, expected %s" % (hx(s, covfun(s, z)), hx(s, s.inot(r[1]))))
        s.Z[dst[0][1]] = z
    elif r[0] == "isop":
        h, z = res.split()
        f, z = int(h, 16), zfam(z)
        need(dd.le(r[1], f) and dd.le(f, r[2]), "the sum of products %s is not between the bounds" % hx(s, f))
        need(all(consistent(s, m) for m in sets(z)), "the cover contains an inconsistent cube")
        need(covfun(s, z) == f, "the cover is the function %s, expected %s" % (hx(s, covfun(s, z)), hx(s, f)))
        cs = [covfun(s, 1 << m) for m in sets(z)]
        for i, c in enumerate(cs):
            rest = 0
            for j, d in enumerate(cs):
                if i != j:
                    rest |= d
            need(c & r[1] & ~rest, "the cover is redundant")
        s.B[dst[0][1]] = f
        s.Z[dst[1][1]] = z


def apply_sim(s, name, dst, r):
    """State after the operation; returns extra lines if the result is not determined"""
    if callable(r):
        return []
    if isinstance(r, int):
        s.Z[dst[0][1]] = r
    elif r[0] == "bdd":
        s.B[dst[0][1]] = r[1]
    elif r[0] == "compl":
        s.Z[dst[0][1]] = 0
        return [["z_sets", dst[0][1], "0"]]
    elif r[0] == "isop":
        s.Z[dst[1][1]] = 0
        s.B[dst[0][1]] = 0
        return [["z_sets", dst[1][1], "0"], ["tt", dst[0][1], "%0*x" % (16 * max(1, (1 << s.n) // 64), 0)]]
    return []


def gen_fam(tc, s, p):
    kind = tc.choice(3)
    top = 1 << p.nz
    if p.mode == "cover":
        ms = [m for m in range(top) if consistent(s, m)]
    else:
        ms = list(range(top))
    if kind == 0:
        r = fam(ms[tc.choice(len(ms))] for _ in range(tc.int(0, 8)))
    elif kind == 1:
        r = fam(m for m in ms if tc.bool(0.5)) if len(ms) <= 32 else fam(ms[tc.choice(len(ms))] for _ in range(tc.int(0, 30)))
    else:
        few = [tc.choice(p.nz) for _ in range(tc.int(0, 4))]
        mask = sum(1 << i for i in set(few))
        r = fam(m & mask for m in (ms[tc.choice(len(ms))] for _ in range(tc.int(0, 8))))
    return "".join(str(r >> k & 1) for k in range(max(1, r.bit_length())))


def gen_op(tc, s, p):
    names = sorted(k for k, v in ZOPS.items() if v[2] == "" or v[2] == p.mode)
    spec = [k for k in names if ZOPS[k][2]]
    name = tc.pick(spec) if spec and tc.bool(0.5) else tc.pick(names)
    toks = []
    pre = []
    for x in ZOPS[name][0]:
        if x in ("D", "db", "z", "f"):
            toks.append(tc.choice(p.regs))
        elif x == "zv":
            toks.append(tc.choice(p.nz))
        elif x[0] == "i":
            lo, hi = x[1:].split("..")
            toks.append(tc.int(int(lo), min(int(hi), p.nz)))
        elif x == "FAM":
            toks.append(gen_fam(tc, s, p))
    if name == "z_isop":
        l, u = toks[2], toks[3]
        # the lower bound becomes a subset of the upper one
        p.lines.append(["and", l, l, u])
        s.B[l] &= s.B[u]
    try:
        dst, args = decode(s, name, toks)
        r = ZOPS[name][1](s, *args)
    except Drop:
        return pre
    return pre + [[name] + toks] + apply_sim(s, name, dst, r)


ZREORD = [2, 3, 4, 5]         # symmetric sifting (6, 7) does not terminate, see the known findings
for nm, sg in (("m_zauto", ""), ("m_realign", "")):
    dd.OPS[nm] = (sg.split(), dd.accept, "zmgr", None)


def gen_mgr(tc, s, p):
    k = tc.weighted([(4, "gc"), (3, "z"), (3, "b"), (2, "auto"), (2, "next"), (2, "other")])
    n = p.n
    free = p.mode == "free"
    if k == "gc":
        return [["m_gc"]]
    if k == "z" and free:
        if tc.bool(0.5):
            return [["m_zshuffle", p.nz] + tc.shuffle(list(range(p.nz)))]
        return [["m_zreorder", tc.pick(ZREORD), 0]]
    if k == "auto":
        return [["m_zauto" if free and tc.bool(0.7) else "m_auto", tc.pick(ZREORD), tc.int(1, 100)]]
    if k == "next":
        return [["m_next", tc.int(1, 100)]]
    if k == "b":
        return [["m_reorder", tc.pick(dd.REORD), 0]]
    return dd.gen_line(tc, n, p.regs, tc.pick(["m_gcoff", "m_debug", "m_all", "m_cache", "m_gc"]))


def gen_program(tc, length=24, mgr=0.2):
    p = dd.Program()
    p.mode = tc.weighted([(3, "free"), (3, "cover"), (2, "align")])
    p.n = tc.weighted([(4, 3), (2, 2), (2, 4)]) if p.mode == "cover" else tc.weighted([(4, 4), (3, 3), (2, 2), (3, 5), (2, 6)])
    p.nz, p.regs = (2 if p.mode == "cover" else 1) * p.n, 6
    p.slots = tc.weighted([(3, 256), (3, 2), (3, 16)])
    p.cache = tc.weighted([(3, 262144), (3, 8), (3, 64)])
    p.lines = []
    s = dd.State(p.n, p.nz, p.regs)
    for r in range(2):
        v = dd.gen_tt(tc, p.n)
        p.lines.append(["tt", r, "%0*x" % (16 * max(1, (1 << p.n) // 64), v)])
        s.B[r] = v
    if p.mode != "free":
        p.lines.append(["m_realign", 1])
    for r in range(3):
        f = gen_fam(tc, s, p)
        p.lines.append(["z_sets", r, f])
        s.Z[r] = zfam(f)

    def one(tc):
        if tc.bool(mgr):
            p.lines.extend(gen_mgr(tc, s, p))
        elif tc.bool(0.08):
            r, v = tc.choice(p.regs), dd.gen_tt(tc, p.n)
            p.lines.append(["tt", r, "%0*x" % (16 * max(1, (1 << p.n) // 64), v)])
            s.B[r] = v
        else:
            p.lines.extend(gen_op(tc, s, p))
    tc.list(one, 1, length, 0.93)
    return p


def extra(s, l, res):
    if l[0] in ("m_zshuffle", "m_zreorder"):
        need(res.split()[0] == "1", "reordering fails")
    else:
        check_op(s, l[0], l[1:], res)
