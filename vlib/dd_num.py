"""Arbitrary precision integers and extended range floating point numbers of the package, against exact integers and fractions."""
from decimal import Decimal, getcontext
from fractions import Fraction

from vlib import dd
from vlib.dd import need

getcontext().prec = 6000
BASE = 1 << 32


def sgn(x):
    return (x > 0) - (x < 0)


# ---------------------------------------------------------------- integers
def expo(v, precision):
    """the text of the number in exponential format, rounded half to even"""
    s = str(v)
    if len(s) <= precision or not v:
        return s
    q, r = divmod(v, 10 ** (len(s) - precision))
    t = 10 ** (len(s) - precision)
    if 2 * r > t or 2 * r == t and q & 1:
        q += 1
    d = str(q)
    e = len(d) + len(s) - precision - 1
    d = d.rstrip("0")
    return d[0] + ("." + d[1:] if len(d) > 1 else "") + "e+%02d" % e


def check_apa(l, res):
    k, t = l[1], res.split()
    D = l[2]
    W = 1 << (32 * D)
    if k in ("add", "sub"):
        a, b = int(l[4], 16), int(l[5], 16)
        e = a + b if k == "add" else a - b
        need(int(t[0]) == (e >= W or e < 0) and int(t[1], 16) == e % W, "the result is %s, expected %x" % (res, e))
    elif k in ("sdiv", "idiv"):
        a, b = int(l[4], 16), l[5]
        need((int(t[0]), int(t[1], 16)) == (a % b, a // b), "remainder and quotient are %s, expected %d and %x" % (res, a % b, a // b))
    elif k == "shr":
        a = int(l[4], 16)
        e = a >> 1 | l[5] << (32 * D - 1)
        need(int(t[0], 16) == e, "the result is %s, expected %x" % (res, e))
    elif k == "lit":
        need(int(t[0], 16) == l[3], "the result is %s, expected %x" % (res, l[3]))
    elif k == "pow":
        e = 1 << l[3] if l[3] < 32 * D else 0
        need(int(t[0], 16) == e, "the result is %s, expected %x" % (res, e))
    elif k == "cmp":
        need(int(t[0]) == sgn(int(l[3], 16) - int(l[5], 16)), "the comparison gives %s" % res)
    elif k == "ratio":
        need(int(t[0]) == sgn(Fraction(int(l[3], 16), l[4]) - Fraction(int(l[6], 16), l[7])), "the comparison gives %s" % res)
    elif k == "digits":
        need(int(t[0]) == -(-D // 32), "%d binary digits need %s digits" % (D, res))
    elif k == "print":
        v, p = int(l[3], 16), l[4]
        e = ["%0*x" % (8 * D, v), str(v), str(v), expo(v, p)]
        need([x[1:] for x in t] == e, "the number is printed as %s, expected %s" % (t, e))
    else:
        raise AssertionError(k)


def check_mint(st, l, res):
    f, n, p = st.B[l[1]], l[2], l[3]
    c = st.count(f)
    v = c << (n - st.n) if n >= st.n else c >> (st.n - n)
    t = res.split("|")
    size = int(t[0])
    need(t[1] == str(v), "the number of minterms is printed as %s, expected %d" % (t[1], v))
    need(t[2] == expo(v, p), "the number of minterms is printed as %s, expected %s" % (t[2], expo(v, p)))
    w, fr = t[3].split(".")
    need(len(fr) == 6 and w == str(v // size) and abs(int(fr) - v % size * 1000000 // size) <= 1, "the density is printed as %s, expected %d + %d/%d" % (t[3], v // size, v % size, size))
    if v == 0:
        need(Decimal(t[4]) == 0, "the extended number of minterms is printed as %s" % t[4])
    else:
        need(abs(Decimal(t[4]) / v - 1) < Decimal("1e-6"), "the extended number of minterms is printed as %s, expected %d" % (t[4], v))


# ---------------------------------------------------------------- extended floating point numbers
def val(m, e):
    if m in ("inf", "-inf", "nan"):
        return m
    f = Fraction(*float.fromhex(m).as_integer_ratio())
    return f * Fraction(2) ** e


def getnum(t):
    m, e = t.split(",")
    if "nan" in m:
        return "nan"
    if "inf" in m:
        return "-inf" if m[0] == "-" else "inf"
    return val(m, int(e))


def negv(x):
    return {"inf": "-inf", "-inf": "inf", "nan": "nan"}[x] if isinstance(x, str) else -x


def sign(x):
    return -1 if x == "-inf" or not isinstance(x, str) and x < 0 else 1


def arith(k, x, y):
    if x == "nan" or y == "nan":
        return "nan"
    ix, iy = isinstance(x, str), isinstance(y, str)
    if k == "sub":
        y = negv(y)
        k = "add"
    if k == "add":
        if ix and iy:
            return x if x == y else "nan"
        return x if ix else y if iy else x + y
    if k == "mul":
        if ix or iy:
            return "inf" if sign(x) == sign(y) else "-inf"
        return x * y
    if ix and iy:
        return "nan"
    if ix:
        return "inf" if sign(x) == sign(y) else "-inf"
    if iy:
        return Fraction(0)
    return x / y if y else "nan"


def check_epd(l, res):
    k = l[1]
    if k == "conv":
        e = val(l[2], 0)
        same(res, e, 0)
    elif k == "pow2":
        same(res, Fraction(2) ** l[2], 0)
    elif k == "str":
        x = val(l[2], l[3])
        t, cls = res.rsplit(" ", 1)
        fin = not isinstance(x, str)
        need(cls == "%d%d%d" % (sgn(sign(x)) if x in ("inf", "-inf") else 0, x == "nan", fin and x == 0), "the number is classified as %s (infinite, not a number, zero)" % cls)
        if fin:
            d = Decimal(t)
            if x == 0:
                need(d == 0, "zero is printed as %s" % t)
            else:
                need(abs(Fraction(d) / x - 1) < Fraction(1, 500000), "the number is printed as %s" % t)
        else:
            need(t.lower().lstrip("+") == x, "%s is printed as %s" % (x, t))
    elif k == "cmp":
        x, y = val(l[2], l[3]), val(l[4], l[5])
        if "nan" not in (x, y):
            need((res == "0") == (x == y), "the comparison gives %s" % res)
    else:
        x, y = val(l[3], l[4]), val(l[5], l[6])
        e = arith(k, x, y)
        tol = Fraction(1, 1 << 51)
        if not isinstance(e, str) and k in ("add", "sub"):
            # the smaller operand is rounded to the precision of the larger
            scale = max(abs(x), abs(y))
            for r in res.split(" "):
                g = getnum(r)
                need(not isinstance(g, str) and abs(g - e) <= scale * tol, "the result is %s, expected %s" % (r, flt(e)))
                normal(r)
            return
        same(res, e, tol)


def flt(e):
    return e if isinstance(e, str) else "%s" % (Decimal(e.numerator) / Decimal(e.denominator)).normalize().__format__(".15e")


def normal(r):
    m = r.split(",")[0]
    if "n" in m:
        return
    v = abs(float.fromhex(m))
    need(v == 0 or 1 <= v < 2, "the number %s is not normalized" % r)


def same(res, e, tol):
    for r in res.split(" "):
        g = getnum(r)
        if isinstance(e, str) or isinstance(g, str):
            need(g == e, "the result is %s, expected %s" % (r, flt(e)))
        else:
            need(abs(g - e) <= abs(e) * tol, "the result is %s, expected %s" % (r, flt(e)))
            normal(r)


def extra(st, l, res):
    if l[0] == "n_apa":
        check_apa(l, res)
    elif l[0] == "n_mint":
        check_mint(st, l, res)
    else:
        check_epd(l, res)


# ---------------------------------------------------------------- generator
def big(tc, D):
    """an integer of at most D digits, with special digits"""
    v = 0
    for _ in range(tc.int(0, D)):
        v = v << 32 | tc.weighted([(3, 0), (3, 0xffffffff), (1, 1), (1, 0x80000000), (1, 0x7fffffff), (3, tc.int(0, BASE - 1)), (1, 10 ** tc.int(0, 9))])
    if tc.bool(0.2):
        v = 10 ** tc.int(0, 9 * D) + tc.int(-1, 1)
    if tc.bool(0.1):
        # many nines or a five to be rounded
        d = tc.int(1, 9 * D)
        v = (10 ** tc.int(0, d) - 1) * 10 ** tc.int(0, 6) + tc.pick([0, 5, 50, 500, 49, 51])
    v = max(0, v)
    return v & ((1 << (32 * D)) - 1)


def word(tc):
    return tc.weighted([(2, 1), (2, 10), (2, tc.int(1, 1000)), (2, BASE - 1), (1, 1 << 31), (3, tc.int(1, BASE - 1))])


def hexs(v, D):
    return "%0*x" % (8 * D, v)


def near(tc, a, D):
    v = max(0, a + tc.weighted([(2, 0), (1, 1), (1, -1), (1, BASE), (1, -BASE)])) if tc.bool(0.5) else big(tc, D)
    return v & ((1 << (32 * D)) - 1)


def gen_apa(tc):
    k = tc.pick(["add", "sub", "sdiv", "idiv", "shr", "lit", "pow", "cmp", "ratio", "digits", "print", "print"])
    D = tc.weighted([(3, 1), (4, 2), (3, 3), (2, 5), (1, 9)])
    if k in ("add", "sub"):
        a = big(tc, D)
        return ["n_apa", k, D, tc.choice(3), hexs(a, D), hexs(near(tc, a, D), D)]
    if k in ("sdiv", "idiv"):
        # the deprecated division promises exact results only while a digit times the divisor fits a double
        return ["n_apa", k, D, tc.choice(2), hexs(big(tc, D), D), word(tc) if k == "sdiv" else tc.int(1, 1 << 19)]
    if k == "shr":
        return ["n_apa", k, D, tc.choice(2), hexs(big(tc, D), D), tc.choice(2)]
    if k == "lit":
        return ["n_apa", k, D, word(tc)]
    if k == "pow":
        return ["n_apa", k, D, tc.int(0, 32 * D + 40)]
    if k == "cmp":
        E = tc.weighted([(3, D), (1, 1), (1, 4)])
        a = big(tc, D)
        return ["n_apa", k, D, hexs(a, D), E, hexs(near(tc, a, E), E)]
    if k == "ratio":
        E = tc.weighted([(3, D), (1, 1), (1, 4)])
        a, p = big(tc, D), tc.int(1, 1000)
        q = tc.int(1, 1000)
        b = a * q // p + tc.int(-1, 1) if tc.bool(0.6) else big(tc, E)
        return ["n_apa", k, D, hexs(a, D), p, E, hexs(max(0, b) & ((1 << (32 * E)) - 1), E), q]
    if k == "digits":
        return ["n_apa", k, tc.int(1, 400)]
    return ["n_apa", k, D, hexs(big(tc, D), D), tc.int(1, 30)]


def mantissa(tc):
    v = tc.weighted([(3, 1.0), (2, 1.5), (3, 1 + tc.int(0, (1 << 52) - 1) / float(1 << 52)), (1, 2 - 2.0 ** -52), (1, 1 + 2.0 ** -52)])
    return (-v if tc.bool(0.3) else v).hex()


def exponent(tc):
    return tc.weighted([(3, tc.int(-3, 3)), (2, tc.int(-60, 60)), (2, tc.int(-2000, 2000)), (1, tc.pick([1022, 1023, 1024, 1025, -1022, -1023, -1024, 52, 53, 54])), (1, tc.int(0, 30000))])


def number(tc, zero=True):
    k = tc.weighted([(20, 0), (1, 1), (1, 2), (1, 3), (2 if zero else 0, 4)])
    if k == 0:
        return [mantissa(tc), exponent(tc)]
    return [["inf", "-inf", "nan", "0x0p+0"][k - 1], 0]


def double(tc):
    """a number that a double can hold"""
    k = tc.weighted([(12, 0), (1, 1), (1, 2), (1, 3), (1, 4)])
    if k == 0:
        return [mantissa(tc), max(-1022, min(1023, exponent(tc)))]
    return [["inf", "-inf", "nan", "0x0p+0"][k - 1], 0]


def gen_epd(tc):
    k = tc.pick(["add", "sub", "mul", "div", "add", "sub", "mul", "div", "conv", "pow2", "str", "cmp"])
    if k == "conv":
        m, e = double(tc)
        return ["n_epd", k, m if "n" in m or e == 0 else (float.fromhex(m) * 2.0 ** e).hex()]
    if k == "pow2":
        return ["n_epd", k, tc.weighted([(2, tc.int(-1022, 1023)), (2, tc.int(1000, 5000)), (1, tc.int(0, 100000))])]
    if k == "str":
        m, e = number(tc)
        return ["n_epd", k, m, max(e, -1000)]
    a, b = number(tc), number(tc)
    if tc.bool(0.4):
        b = list(a)
        if tc.bool(0.6) and "n" not in b[0] and b[0] != "0x0p+0":
            b = [(float.fromhex(b[0]) * (1 if tc.bool(0.5) else -1)).hex(), b[1] + tc.pick([0, 0, 1, -1, 2, 51, 52, 53, 54, 60])]
    if k == "cmp":
        return ["n_epd", k] + a + b
    how = tc.choice(3)
    if how == 1 and "n" not in b[0]:
        # the second operand is a double
        b[1] = max(-1022, min(1023, b[1]))
    if k == "mul" and ("n" in a[0] and b[0] == "0x0p+0" or "n" in b[0] and a[0] == "0x0p+0"):
        b = [mantissa(tc), 0]
        a = [mantissa(tc), 0]
    return ["n_epd", k, how] + a + b


def gen_program(tc):
    p = dd.Program()
    n = p.n = tc.weighted([(2, 2), (2, 4), (3, 6), (1, 9)])
    p.nz, p.slots, p.cache, p.regs = 0, 256, 262144, 2
    p.lines = []

    def one(tc):
        k = tc.choice(5)
        if k == 0:
            p.lines.append(["tt", 0, "%0*x" % (16 * max(1, (1 << n) // 64), dd.gen_tt(tc, n))])
            p.lines.append(["n_mint", 0, n + tc.weighted([(4, 0), (2, 1), (2, tc.int(1, 40)), (2, tc.int(1, 1200))]), tc.int(1, 12)])
        elif k < 3:
            p.lines.append(gen_apa(tc))
        else:
            p.lines.append(gen_epd(tc))
    tc.list(one, 1, 12, 0.85)
    return p
