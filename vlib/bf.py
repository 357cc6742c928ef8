"""Reference semantics and program generator for the BF layer (harness/bf.cpp): truth tables as Python integers."""
import itertools, re
from vlib.pbt import Violation
from vlib.dd import State

REGS = 5


class Prog:
    pass


def gen_program(tc):
    p = Prog()
    p.n = tc.weighted([(2, 2), (3, 3), (3, 4), (3, 5), (5, 6), (1, 7), (3, 8), (1, 9), (1, 10)])
    n = p.n
    regs = [0] * REGS                   # manager of every register
    cubes = [[0, []] for _ in range(3)]
    vecs = [[0, 0, set()] for _ in range(3)]
    L = p.lines = []

    def reg(m=None):
        c = [i for i in range(REGS) if m is None or regs[i] == m]
        if not c:
            i = tc.choice(REGS)
            L.append(["var", i, m, tc.choice(n)])
            regs[i] = m
            return i
        return tc.pick(c)

    def subset(lo=0, hi=None):
        vs = tc.shuffle(range(n))
        return vs[:tc.int(lo, n if hi is None else hi)]

    def lst(v):
        return [len(v)] + list(v)

    auto = [1, 1]

    def tt():
        i, m = tc.choice(REGS), tc.weighted([(4, 0), (1, 1)])
        regs[i] = m
        L.append(["tt", i, m, "%x" % tc.choice(1 << min(1 << n, 62))])
        return i
    tt()

    def step(k):
        if k == 0:
            i, m = tc.choice(REGS), tc.weighted([(4, 0), (1, 1)])
            L.append(["var", i, m, tc.choice(n)])
            regs[i] = m
        elif k == 1:
            tt()
        elif k == 2:
            i, m = tc.choice(REGS), tc.weighted([(4, 0), (1, 1)])
            L.append(["const", i, m, tc.choice(2)])
            regs[i] = m
        elif k == 3:
            a = reg()
            d = tc.choice(REGS)
            L.append(["not", d, a])
            regs[d] = regs[a]
        elif k == 4:
            a = reg()
            b = reg(regs[a])
            m = regs[a]
            d = tc.choice(REGS)
            L.append([tc.pick(["and", "or", "xor", "minus", "implies"]), d, a, b])
            regs[d] = m
        elif k == 5:
            a = reg()
            L.append([tc.pick(["andeq", "oreq"]), a, reg(regs[a])])
        elif k == 6:
            a, b = tc.choice(REGS), tc.choice(REGS)
            L.append([tc.pick(["assign", "move"]), a, b])
            regs[a] = regs[b]
        elif k == 7:
            a, d = tc.choice(REGS), tc.choice(REGS)
            L.append(["construct", d, a])
            regs[d] = regs[a]
        elif k == 8:
            idx = [tc.choice(REGS) for _ in range(tc.int(2, 4))]
            pos, q = tc.choice(len(idx) + 1), tc.choice(len(idx))
            L.append(["vector"] + lst(idx) + [pos, q])
            v = [regs[i] for i in idx]
            v.insert(pos, regs[idx[q]])
            del v[q]
            v[0], v[-1] = v[-1], v[0]
            regs[idx[0]] = v[0]
        elif k == 9:
            a = reg()
            L.append(["cmp", a, reg(regs[a])])
        elif k == 10:
            L.append(["pred", reg()])
        elif k == 11:
            c, m = tc.choice(3), tc.weighted([(4, 0), (1, 1)])
            kind = tc.pick(["cube", "cubea", "cube1"])
            v = subset() if kind != "cube1" else [tc.choice(n)]
            L.append([kind, c, m] + (lst(v) if kind != "cube1" else v))
            cubes[c] = [m, v]
        elif k == 12:
            c, d = tc.choice(3), tc.choice(3)
            L.append(["cubecopy", c, d, tc.choice(2)])
            cubes[c] = cubes[d]
        elif k == 13:
            v = subset()
            h = len(v) // 2
            m = tc.weighted([(4, 0), (1, 1)])
            L.append(["vec", 0, m] + lst(v[:h]))
            L.append(["vec", 1, m] + lst(v[h:2 * h]))
            vecs[0], vecs[1] = [m, h, set(v[:h])], [m, h, set(v[h:2 * h])]
        elif k == 14:
            a, b = tc.choice(3), tc.choice(3)
            L.append(["veccopy", a, b, tc.choice(2)])
            vecs[a] = vecs[b]
        elif k == 15:
            c = tc.choice(3)
            m = cubes[c][0]
            a = reg(m)
            d = tc.choice(REGS)
            L.append([tc.pick(["exist", "univ"]), d, a, c])
            regs[d] = m
        elif k == 16:
            c = tc.choice(3)
            m = cubes[c][0]
            a, b, d = reg(m), reg(m), tc.choice(REGS)
            if regs[a] == m and regs[b] == m:
                L.append(["andabs", d, a, b, c])
                regs[d] = m
        elif k == 17:
            a, d = reg(), tc.choice(REGS)
            m = regs[a]
            L.append([tc.pick(["exist1", "univ1"]), d, a, m, tc.choice(n)])
            regs[d] = m
        elif k == 18:
            x, y = tc.choice(3), tc.choice(3)
            if vecs[x][0] == vecs[y][0] and vecs[x][1] == vecs[y][1] and not (vecs[x][2] & vecs[y][2]):
                m = vecs[x][0]
                a, d = reg(m), tc.choice(REGS)
                L.append(["swap", d, a, x, y])
                regs[d] = m
        elif k == 19:
            a = reg()
            m = regs[a]
            b, d = reg(m), tc.choice(REGS)
            L.append([tc.pick(["restrict", "careset"]), d, a, b, m, 0 if auto[m] else 1])
            regs[d] = m
        elif k == 20:
            m = tc.weighted([(4, 0), (1, 1)])
            c = [i for i in range(REGS) if regs[i] == m]
            v = [tc.pick(c) for _ in range(tc.int(0, 4))] if c else []
            d = tc.choice(REGS)
            L.append([tc.pick(["mand", "mor"]), d, m] + lst(v))
            regs[d] = m
        elif k == 21:
            c = tc.choice(3)
            L.append(["count", reg(cubes[c][0]), c])
        elif k == 22:
            L.append([tc.pick(["size", "paths"]), reg()])
        elif k == 23:
            a, d = reg(), tc.choice(REGS)
            m = regs[a]
            m2 = tc.weighted([(1, m), (1, 1 - m)])
            perm = tc.shuffle(range(n))
            if tc.bool(0.15):
                perm = perm[:tc.choice(n)]
            L.append(["file", d, a, m, m2] + lst(perm) + [tc.weighted([(4, 0), (1, 1)])])
            if len(perm) == n:
                regs[d] = m2
            else:
                # the destination only changes if the file is accepted; both managers are the same then
                L[-1][4] = m
                L[-1][1] = a
        elif k == 24:
            L.append(["badfile", tc.choice(2), tc.choice(5)])
        elif k == 25:
            a = reg()
            vs = tc.shuffle(range(n))
            types = []
            while vs and len(types) < 4:
                h = tc.int(0, len(vs))
                types.append(("t%d" % len(types), vs[:h]))
                vs = vs[h:]
                if tc.bool(0.1):
                    break
            if tc.bool(0.05) and types and types[0][1]:
                types.append(("dup", [types[0][1][0]]))
            order = []
            if tc.bool(0.5):
                order = [t for t, _ in tc.shuffle(types)]
                if tc.bool(0.1):
                    order.append("nosuch")
                if order and tc.bool(0.1):
                    order.append(order[0])
                if order and tc.bool(0.1):
                    order.pop(0)
            row = ["dot", a, regs[a], len(types)]
            for t, v in types:
                row += [t] + lst(v)
            row += [len(order)] + order + [1 if tc.bool(0.2) else 0]
            L.append(row)
        elif k == 26:
            h = n // 2
            m = tc.weighted([(4, 0), (1, 1)])
            vs = tc.shuffle(range(n)) if tc.bool(0.7) else list(range(n))
            prim, sec = vs[0:2 * h:2], vs[1:2 * h:2]
            # functions over the primary variables: quantify everything else away
            other = [v for v in vs if v not in prim]
            a, b = reg(m), reg(m)
            c = tc.choice(3)
            d, e = tc.pick([(0, 1), (1, 2), (3, 4)])
            if regs[a] == m and regs[b] == m:
                L.append(["cube", c, m] + lst(other))
                cubes[c] = [m, other]
                if tc.bool(0.5):
                    L.append([tc.pick(["exist", "univ"]), 2 if d != 2 and e != 2 else 4, b, c])
                    f = L[-1][1]
                    L.append([tc.pick(["exist", "univ"]), d, a, c])
                    regs[d] = regs[f] = m
                    L.append(["minterms", d, f, m] + lst(prim) + lst(sec))
                elif tc.bool(0.7):
                    for f in (d, e):
                        if f == d or tc.bool(0.5):
                            x = tc.choice(1 << (1 << h))
                            y = tc.choice(4)
                            if y == 1:
                                x &= tc.choice(1 << (1 << h))
                            elif y > 1:
                                x |= tc.choice(1 << (1 << h))
                            L.append(["fn", f, m] + lst(prim) + [format(x, "0%db" % (1 << h))])
                        else:
                            L.append(["const", f, m, 1])
                        regs[f] = m
                    L.append(["minterms", d, e, m] + lst(prim) + lst(sec))
                else:
                    L.append(["exist", d, a, c])
                    L.append(["const", e, m, 1])
                    regs[d] = regs[e] = m
                    L.append(["minterms", d, e, m] + lst(prim) + lst(sec))
        elif k == 27:
            L.append(["reorder", tc.choice(2), tc.pick([4, 5, 2, 3, 6, 10, 14, 16, 21])])
        elif k == 28:
            m = tc.choice(2)
            auto[m] = tc.choice(2)
            L.append(["auto", m, auto[m], tc.pick([-1, 2, 10, 20, 40]), tc.choice(4)])
        else:
            L.append(["gc", tc.choice(2)])

    W = [2, 5, 1, 3, 10, 5, 4, 2, 2, 4, 2, 4, 2, 3, 1, 4, 4, 3, 3, 4, 3, 3, 3, 4, 1, 3, 6, 2, 2, 2]
    steps = [(w, i) for i, w in enumerate(W)]
    tc.list(lambda t: step(t.weighted(steps)), 3, 40, 0.94)
    return p


def text(p):
    return "case %d %d\n" % (p.n, REGS) + "".join(" ".join(map(str, l)) + "\n" for l in p.lines) + "end\n"


def take(row, i):
    k = int(row[i])
    return [int(x) for x in row[i + 1:i + 1 + k]], i + 1 + k


def subfunctions(S, f, order):
    """the nodes of the reduced ordered diagram of f: {function: variable}, by successive cofactors"""
    res = {}
    todo = [f]
    while todo:
        g = todo.pop()
        if g in (0, S.F) or g in res:
            continue
        for v in order:
            a, b = S.cof(g, v, 0), S.cof(g, v, 1)
            if a != b:
                res[g] = (v, a, b)
                todo += [a, b]
                break
    return res


def check_program(p, server):
    out = server.run(text(p))
    n = p.n
    S = State(n, 0, 0)
    F, V = S.F, S.V
    B = [(0, 0)] * REGS                # (manager, function)
    K = [(0, [])] * 3
    Wv = [(0, [])] * 3

    def cof(f, v, x):
        k = 1 << v
        if x:
            g = f & V[v]
            return g | (g >> k)
        g = f & ~V[v] & F
        return g | ((g << k) & F)
    S.cof = cof

    def ex(f, vs):
        for v in vs:
            f = cof(f, v, 0) | cof(f, v, 1)
        return f

    def un(f, vs):
        for v in vs:
            f = cof(f, v, 0) & cof(f, v, 1)
        return f

    def supp(f):
        return {v for v in range(n) if cof(f, v, 0) != cof(f, v, 1)}

    def substitute(f, m):
        """f with variable v replaced by m[v]"""
        r = 0
        for i in range(1 << n):
            j = 0
            for v in range(n):
                if (i >> m[v]) & 1:
                    j |= 1 << v
            if (f >> j) & 1:
                r |= 1 << i
        return r

    def hx(f):
        return "%x" % f

    if len(out) != len(p.lines) + 2:
        raise Violation("%d lines of output for %d operations" % (len(out), len(p.lines)))
    stats = set()
    if out[0] != "ok":
        raise Violation("unexpected answer " + out[0])
    for row, got in zip(p.lines, out[1:]):
        o = row[0]
        stats.add(o)
        g = got.split()

        def fail(what):
            raise Violation("operation '%s': %s\nbut the program answered: %s\nfunctions before: %s" %
                            (" ".join(map(str, row)), what, got, " ".join("%d:%x" % b for b in B)))

        def expect(s):
            if got.strip() != s:
                fail("expected " + s)

        def put(d, m, f):
            B[d] = (m, f)
        if o == "const":
            f = F if row[3] else 0
            expect(hx(f))
            put(row[1], row[2], f)
        elif o == "var":
            expect(hx(V[row[3]]))
            put(row[1], row[2], V[row[3]])
        elif o == "tt":
            f = int(row[3], 16) & F
            expect(hx(f))
            put(row[1], row[2], f)
        elif o == "fn":
            v, i = take(row, 3)
            t = [F if ch == "1" else 0 for ch in row[i]]
            for x in v:
                t = [(V[x] & t[j + 1]) | (~V[x] & F & t[j]) for j in range(0, len(t), 2)]
            expect(hx(t[0]))
            put(row[1], row[2], t[0])
        elif o == "not":
            m, f = B[row[2]]
            expect(hx(f ^ F))
            put(row[1], m, f ^ F)
        elif o in ("and", "or", "xor", "minus", "implies"):
            (m, a), (_, b) = B[row[2]], B[row[3]]
            f = {"and": a & b, "or": a | b, "xor": a ^ b, "minus": a & ~b & F, "implies": (a ^ F) | b}[o]
            expect(hx(f))
            put(row[1], m, f)
        elif o in ("andeq", "oreq"):
            (m, a), (_, b) = B[row[1]], B[row[2]]
            f = a & b if o == "andeq" else a | b
            expect("%x %x" % (f, f))
            put(row[1], m, f)
        elif o == "assign":
            f = B[row[2]]
            expect("%x %x %x" % (f[1], f[1], f[1]))
            B[row[1]] = f
        elif o == "move":
            f = B[row[2]]
            if g[0] != hx(f[1]) or g[1] != hx(f[1]) or (row[1] == row[2] and g[2] != hx(f[1])):
                fail("expected %x" % f[1])
            if g[2] not in ("-", hx(f[1])):
                fail("the moved-from function must be empty or unchanged")
            B[row[1]] = f
            if g[2] == "-":
                B[row[2]] = f
        elif o == "construct":
            m, f = B[row[2]]
            if g[1:] != [hx(f), hx(f), "-", "-", hx(f)] or g[0] not in ("-", hx(f)):
                fail("expected copies of %x" % f)
            put(row[1], m, f)
        elif o == "vector":
            idx, i = take(row, 1)
            pos, q = row[i], row[i + 1]
            v = [B[j] for j in idx]
            v.insert(pos, B[idx[q]])
            del v[q]
            v[0], v[-1] = v[-1], v[0]
            expect(" ".join(hx(f) for _, f in v))
            B[idx[0]] = v[0]
        elif o == "cmp":
            a, b = B[row[1]][1], B[row[2]][1]
            le, ge = a & ~b == 0, b & ~a == 0
            expect("".join(str(int(x)) for x in (le, le and a != b, ge, ge and a != b, a == b, a != b, a == b, a == b, a == b)))
        elif o == "pred":
            m, a = B[row[1]]
            expect("".join(str(int(x)) for x in (a == F, a == 0, a in (0, F), True)) + "%d1" % m)
        elif o in ("cube", "cubea"):
            v, _ = take(row, 3)
            expect(str(len(v)))
            K[row[1]] = (row[2], v)
        elif o == "cube1":
            expect("1")
            K[row[1]] = (row[2], [row[3]])
        elif o == "cubecopy":
            K[row[1]] = K[row[2]]
            expect(str(len(K[row[1]][1])))
        elif o == "vec":
            v, _ = take(row, 3)
            expect(str(len(v)))
            Wv[row[1]] = (row[2], v)
        elif o == "veccopy":
            Wv[row[1]] = Wv[row[2]]
            expect(str(len(Wv[row[1]][1])))
        elif o in ("exist", "univ"):
            m, a = B[row[2]]
            f = (ex if o == "exist" else un)(a, K[row[3]][1])
            expect(hx(f))
            put(row[1], m, f)
        elif o == "andabs":
            (m, a), (_, b) = B[row[2]], B[row[3]]
            f = ex(a & b, K[row[4]][1])
            expect(hx(f))
            put(row[1], m, f)
        elif o in ("exist1", "univ1"):
            m, a = B[row[2]]
            f = (ex if o == "exist1" else un)(a, [row[4]])
            expect(hx(f))
            put(row[1], m, f)
        elif o == "swap":
            m, a = B[row[2]]
            mp = list(range(n))
            for x, y in zip(Wv[row[3]][1], Wv[row[4]][1]):
                mp[x], mp[y] = y, x
            f = substitute(a, mp)
            expect(hx(f))
            put(row[1], m, f)
        elif o in ("restrict", "careset"):
            (m, a), (_, b) = B[row[2]], B[row[3]]
            b = b or V[0]
            f = int(g[0], 16)
            if (f ^ a) & b:
                fail("the result differs from %x inside the care set %x" % (a, b))
            if g[1] != "1":
                fail("the result is larger than the original function")
            put(row[1], m, f)
        elif o in ("mand", "mor"):
            v, _ = take(row, 3)
            f = F if o == "mand" else 0
            for j in v:
                f = f & B[j][1] if o == "mand" else f | B[j][1]
            expect(hx(f))
            put(row[1], row[2], f)
        elif o == "count":
            a = B[row[1]][1]
            c = K[row[2]][1]
            if supp(a) - set(c):
                expect("nan")
            else:
                expect("%.1f" % (bin(a).count("1") / 2 ** (n - len(c))))
        elif o in ("size", "paths"):
            a = B[row[1]][1]
            perm = [int(x) for x in g[-n:]]
            if sorted(perm) != list(range(n)):
                fail("the variable order is not a permutation")
            order = sorted(range(n), key=lambda v: perm[v])
            nodes = subfunctions(S, a, order)
            if o == "size":
                k = len({min(x, x ^ F) for x in nodes}) + 1
                top = nodes[a][0] if a in nodes else -1
                if g[:2] != [str(k), str(top)]:
                    fail("expected %d nodes and top variable %d" % (k, top))
            else:
                cnt = {0: 0, F: 1}

                def paths(f):
                    if f not in cnt:
                        cnt[f] = paths(nodes[f][1]) + paths(nodes[f][2])
                    return cnt[f]
                if g[0] != "%.1f" % paths(a):
                    fail("expected %d paths" % paths(a))
        elif o == "file":
            a = B[row[2]][1]
            perm, i = take(row, 5)
            if g[0] != str(row[i]):
                fail("the given first lines are not at the start of the file")
            bad = [v for v in supp(a) if v >= len(perm)]
            if bad:
                if g[1] != "error":
                    fail("the file uses variable %d, but was read with %d variables" % (bad[0], len(perm)))
            else:
                f = substitute(a, perm + [v for v in range(n) if v not in perm])
                if g[1] != hx(f):
                    fail("expected %x" % f)
                put(row[1], row[4], f)
        elif o == "badfile":
            expect("error")
        elif o == "dot":
            check_dot(S, row, got, B, cof, supp, fail)
        elif o == "minterms":
            check_minterms(n, row, g, B, cof, fail)
        elif o == "reorder":
            expect("1")
        else:
            expect("ok")
    g = out[-1].split()
    if "blocks" in g:
        g = g[:g.index("blocks")]      # counted allocations: judged by C42
    exp = [hx(f) for _, f in B] + ["sound", "sound", "0", "0"]
    if g != exp:
        raise Violation("at the end: expected %s (functions, state of the managers, nodes still referenced), got %s" % (" ".join(exp), out[-1]))
    return stats


def check_dot(S, row, got, B, cof, supp, fail):
    a = B[row[1]][1]
    k, i, types = row[3], 4, []
    for _ in range(k):
        t = row[i]
        v, i = take(row, i + 1)
        types.append((t, v))
    order = row[i + 1:i + 1 + row[i]]
    only = row[-1]
    if not order:
        order = [t for t, _ in types]
    d = dict(types)
    vs = [v for t in order for v in d.get(t, [])]
    exc = (not order) or len(set(vs)) < len(vs) or (a not in (0, S.F) and supp(a) - set(vs))
    if only:
        if got != ("0" if exc else "1"):
            fail("support check: expected %s" % (not exc))
        return
    if exc:
        if got != "exception":
            fail("expected an exception (duplicate or missing variables)")
        return
    t = got.replace("\\n", "\n").replace("\\\\", "\\")
    if t.count("{") != t.count("}"):
        fail("unbalanced dot file")
    level = {}
    for m in re.finditer(r'rank = same; "n(\d+)- \((\d+)\)"; (.*)', t):
        if m.group(1) != m.group(2):
            fail("wrong variable name")
        for nd in re.findall(r'"(\d+_\d+)"', m.group(3)):
            if nd in level:
                fail("node %s appears twice" % nd)
            level[nd] = int(m.group(1))
    succ = {nd: [0, 0] for nd in level}
    edges = re.findall(r'"(\d+_\d+)" -> ?"(\w+)"\[(\S*)\];', t)
    incoming = set()
    for x, y, style in edges:
        if x not in level or (y != "1" and y not in level):
            fail("an edge uses the unknown node")
        j = 0 if style.startswith("color=red") else 1
        if succ[x][j] != 0:
            fail("node %s has two edges of the same kind" % x)
        succ[x][j] = y
        incoming.add(y)
    pos = {v: j for j, v in enumerate(vs)}
    memo = {}

    def val(x):
        if x == 0:
            return 0
        if x == "1":
            return S.F
        if x not in memo:
            for y in succ[x]:
                if y in level and pos[level[y]] <= pos[level[x]]:
                    fail("the edges do not follow the variable order")
            v = S.V[level[x]]
            memo[x] = (v & val(succ[x][1])) | (~v & S.F & val(succ[x][0]))
        return memo[x]
    roots = [x for x in level if x not in incoming]
    if a in (0, S.F):
        if level or ('"%d"; }' % (1 if a else 0)) not in t:
            fail("the graph of a constant must consist of that constant")
        return
    if len(roots) != 1:
        fail("the graph has %d roots" % len(roots))
    if val(roots[0]) != a:
        fail("the graph describes %x instead of %x" % (val(roots[0]), a))
    if len(set(memo.values())) != len(level) or any(succ[x][0] == succ[x][1] for x in level):
        fail("the graph is not reduced")


def check_minterms(n, row, g, B, cof, fail):
    f, care = B[row[1]][1], B[row[2]][1]
    prim, i = take(row, 4)
    sec, i = take(row, i)
    F = (1 << (1 << n)) - 1
    # all cubes over the primary variables that imply f and meet the care set
    adm = []

    def rec(j, g0, c0, cube):
        # g0: conjunction over the cofactors so far; c0: disjunction of the care set's cofactors
        if j == len(prim):
            if g0 == F and c0:
                adm.append(cube)
            return
        v = prim[j]
        rec(j + 1, cof(g0, v, 0), cof(c0, v, 0), cube + "0")
        rec(j + 1, cof(g0, v, 1), cof(c0, v, 1), cube + "1")
        rec(j + 1, cof(g0, v, 0) & cof(g0, v, 1), cof(c0, v, 0) | cof(c0, v, 1), cube + "-")
    rec(0, f, care, "")
    done = []
    for c in g:
        left = [x for x in adm if not any(all(x[j] != "-" for j in fx) for fx in done)]
        if c == ".":
            if left:
                fail("stopped although the cube %s is left (%s listed)" % (left[0], len(done)))
            return
        if c not in adm:
            fail("%s is not a cube inside the function that meets the care set" % c)
        if c not in left:
            fail("%s fixes all variables of an earlier cube" % c)
        m = min(sum(ch != "-" for ch in x) for x in left)
        if sum(ch != "-" for ch in c) != m:
            fail("%s is not minimal: there is a cube with %d literals" % (c, m))
        done.append([j for j, ch in enumerate(c) if ch != "-"])
    fail("the enumeration does not end")
