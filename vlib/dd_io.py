"""C35: what the export functions write and the import functions read. The files are read by parsers of our own."""
import re
from vlib import dd, dd_add
from vlib.dd import need
from vlib.pbt import Violation

IDS, PERMIDS, AUXIDS, NAMES, DEFAULT = range(5)


def unesc(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "\\": "\\"}.get(m.group(1), m.group(1)), s)


def vars_by_name(st):
    return {"v%d" % i: st.V[i] for i in range(st.n)}


class Defs:
    """Named functions"""

    def __init__(self, st, what):
        self.st, self.what, self.d = st, what, dict(vars_by_name(st))

    def get(self, name, neg=False):
        need(name in self.d, "%s: %s is used before it is defined" % (self.what, name))
        return self.st.F ^ self.d[name] if neg else self.d[name]

    def set(self, name, f):
        need(name not in self.d, "%s: %s is defined twice" % (self.what, name))
        self.d[name] = f

    def outputs(self, fs):
        for i, f in enumerate(fs):
            g = self.get("out%d" % i)
            need(g == f, "%s: output %d is %s, expected %s" % (self.what, i, dd.hx(self.st, g), dd.hx(self.st, f)))


def inputs_ok(st, names, fs, what):
    need(len(set(names)) == len(names) and set(names) <= {"v%d" % i for i in range(st.n)}, "%s: input names %s" % (what, names))
    for i in range(st.n):
        if any(st.c0(f, i) != st.c1(f, i) for f in fs):
            need("v%d" % i in names, "%s: v%d is not among the inputs" % (what, i))


# ---------------------------------------------------------------- readers
def dddmp_file(st, fs, info, names, perm, text):
    lines = text.split("\n")
    need(lines[-1] == "" and lines[-2] == ".end", "the file does not end with .end")
    k = lines.index(".nodes")
    head, body = {}, lines[k + 1:-2]
    for l in lines[:k]:
        t = l.split()
        need(t[0].startswith(".") and t[0] not in head, "header line %s" % l)
        head[t[0]] = t[1:]
    supp = [i for i in range(st.n) if any(st.c0(f, i) != st.c1(f, i) for f in fs)]
    order = sorted(supp, key=lambda i: perm[i])
    exp = {".mode": ["A"], ".varinfo": [str(info)], ".nnodes": [str(len(body))], ".nvars": [str(st.n)], ".nsuppvars": [str(len(supp))],
           ".ids": [str(i) for i in supp], ".permids": [str(perm[i]) for i in supp], ".auxids": [str(i + 7) for i in supp],
           ".nroots": [str(len(fs))], ".rootnames": ["r%d" % i for i in range(len(fs))]}
    if names:
        exp[".suppvarnames"] = ["v%d" % i for i in supp]
        exp[".orderedvarnames"] = ["v%d" % i for i in sorted(range(st.n), key=lambda i: perm[i])]
    else:
        need(".suppvarnames" not in head and ".orderedvarnames" not in head, "names in the file")
    for a, b in exp.items():
        need(head.get(a) == b, "%s is %s, expected %s" % (a, head.get(a), b))
    val = {}
    seen = set()
    for j, l in enumerate(body):
        t = l.split()
        need(len(t) == (4 if info == DEFAULT else 5), "node line %s" % l)
        need(int(t[0]) == j + 1, "node %s in line %d" % (t[0], j + 1))
        T, E = int(t[-2]), int(t[-1])
        if T == 0 and E == 0:
            need(t[-3] == "1", "constant %s" % l)
            val[j + 1] = st.F
        else:
            pos = int(t[-3])
            need(0 <= pos < len(order), "position in %s" % l)
            v = order[pos]
            if info != DEFAULT:
                e = {IDS: str(v), PERMIDS: str(perm[v]), AUXIDS: str(v + 7), NAMES: "v%d" % v}[info]
                need(t[1] == e, "variable information in %s, expected %s" % (l, e))
            need(0 < T <= j and 0 < abs(E) <= j, "children in %s" % l)
            val[j + 1] = st.ite(st.V[v], val[T], val[E] if E > 0 else st.F ^ val[-E])
        need(val[j + 1] not in seen and st.F ^ val[j + 1] not in seen, "node %d is redundant" % (j + 1))
        seen.add(val[j + 1])
    roots = [int(x) for x in head[".rootids"]]
    need(len(roots) == len(fs), "root ids %s" % roots)
    for i, (r, f) in enumerate(zip(roots, fs)):
        g = val[abs(r)] if r > 0 else st.F ^ val[abs(r)]
        need(g == f, "root %d is %s, expected %s" % (i, dd.hx(st, g), dd.hx(st, f)))


def blif(st, fs, text, prefix, spaced):
    D = Defs(st, "BLIF")
    lines = [l for l in text.split("\n") if l]
    need(lines[0] == ".model mod" and lines[-1] == ".end", "BLIF: frame %s ... %s" % (lines[0], lines[-1]))
    need(lines[1].split()[0] == ".inputs", "BLIF: inputs")
    inputs_ok(st, lines[1].split()[1:], fs, "BLIF")
    need(lines[2].split() == [".outputs"] + ["out%d" % i for i in range(len(fs))], "BLIF: %s" % lines[2])
    i = 3
    while i < len(lines) - 1:
        t = lines[i].split()
        need(t[0] == ".names", "BLIF: line %s" % lines[i])
        i += 1
        f = 0
        while not lines[i].startswith(".names") and lines[i] != ".end":
            if spaced and lines[i] == ".def 0":
                i += 1
                continue
            x = lines[i].split()
            val, row = x[-1], "".join(x[:-1])
            if len(t) == 2:
                need(row == "" and val == "1", "BLIF: line %s" % lines[i])
                f = st.F
            else:
                need(len(row) == len(t) - 2 and val == "1" and set(row) <= set("01-"), "BLIF: line %s" % lines[i])
                c = st.F
                for ch, nm in zip(row, t[1:-1]):
                    if ch != "-":
                        c &= D.get(nm, ch == "0")
                f |= c
            i += 1
        D.set(t[-1], f)
    D.outputs(fs)


def prefix(st, fs, text):
    D = Defs(st, "prefix notation")
    D.d.update(vss=0, vdd=st.F)
    lines = [l for l in text.split("\n") if l]
    need("mod" in lines[0] and lines[0].startswith("(COMMENT"), lines[0])
    inputs_ok(st, re.findall(r"input names:(.*)\)", lines[1])[0].split(), fs, "prefix notation")
    need(re.findall(r"output names:(.*)\)", lines[2])[0].split() == ["out%d" % i for i in range(len(fs))], lines[2])

    def term(t, i):
        if t[i] != "(":
            return D.get(t[i]), i + 1
        o = t[i + 1]
        a, i = term(t, i + 2)
        if o == "NOT":
            a ^= st.F
        else:
            need(o in ("AND", "OR", "BUF"), "operator %s" % o)
            while t[i] != ")":
                b, i = term(t, i)
                a = a & b if o == "AND" else a | b
        need(t[i] == ")", "missing )")
        return a, i + 1
    for l in lines[3:]:
        t = re.findall(r"[()]|[^() ]+", l)
        need(t[0] == "(" and t[1] in ("OR", "AND", "BUF"), "line %s" % l)
        # the first operand is the name of the gate
        f, i = term([t[0], t[1]] + t[3:], 0)
        need(i == len(t) - 1, "line %s" % l)
        D.set(t[2], f)
    D.outputs(fs)


def infix(D, s, ops):
    """and, or, not with the usual precedence; ops: (and, or, prefix not, postfix not)"""
    AND, OR, NOT, POST = ops
    F = D.st.F
    t = re.findall(r"[()]|%s" % "|".join(["[A-Za-z_0-9]+"] + [re.escape(x) for x in ops if x]), s)
    need("".join(t) == s.replace(" ", ""), "%s: strange symbols in %s" % (D.what, s))
    p = [0]

    def peek():
        return t[p[0]] if p[0] < len(t) else None

    def disj():
        f = conj()
        while peek() == OR:
            p[0] += 1
            f |= conj()
        return f

    def conj():
        f = lit()
        while peek() == AND:
            p[0] += 1
            f &= lit()
        return f

    def lit():
        x = peek()
        p[0] += 1
        if NOT and x == NOT:
            return F ^ lit()
        if x == "(":
            f = disj()
            need(peek() == ")", "%s: missing ) in %s" % (D.what, s))
            p[0] += 1
        elif x in ("0", "1", "false", "true"):
            f = F if x in ("1", "true") else 0
        else:
            need(x is not None and re.match(r"[A-Za-z_]", x), "%s: %s in %s" % (D.what, x, s))
            f = D.get(x)
        while POST and peek() == POST:
            p[0] += 1
            f ^= F
        return f
    f = disj()
    need(p[0] == len(t), "%s: rest in %s" % (D.what, s))
    return f


def smv(st, fs, text):
    D = Defs(st, "SMV")
    lines = [l.strip() for l in text.split("\n")]
    need(lines[0] == "MODULE main -- mod" and lines[1] == "IVAR", "SMV: frame")
    k = lines.index("DEFINE")
    ins = [l for l in lines[2:k] if l]
    need(all(re.match(r"\w+ : boolean;$", l) for l in ins), "SMV: declarations %s" % ins)
    inputs_ok(st, [l.split()[0] for l in ins], fs, "SMV")
    for l in lines[k + 1:]:
        if l:
            a, b = l.rstrip(";").split(" := ")
            D.set(a, infix(D, b, ("&", "|", "!", None)))
    D.outputs(fs)


def ddcal(st, fs, text):
    D = Defs(st, "DDcal")
    lines = [l for l in text.split("\n") if l]
    if any(f not in (0, st.F) for f in fs):
        inputs_ok(st, [x for x in lines[0].split(" * ") if x.strip()], fs, "DDcal")
    lines = lines[1:]
    need(lines[-1][0] == "[" and lines[-1][-1] == "]", "DDcal: last line %s" % lines[-1])
    need(lines[-1].strip("[]").split() == ["out%d" % i for i in range(len(fs))], "DDcal: last line %s" % lines[-1])
    for l in lines[:-1]:
        if " = " not in l:
            need(not l.strip(), "DDcal: line %s" % l)
            continue
        a, b = l.split(" = ")
        D.set(a, infix(D, b, ("*", "+", None, "'")))
    D.outputs(fs)


def davinci(st, fs, text):
    D = Defs(st, "daVinci")
    t = re.findall(r'"[^"]*"|\w+|[()\[\],]', text)
    p = [0]

    def eat(*xs):
        for x in xs:
            need(p[0] < len(t) and t[p[0]] == x, "daVinci: expected %s" % x)
            p[0] += 1

    def string():
        p[0] += 1
        return t[p[0] - 1].strip('"')

    def attrs():
        r = {}
        eat("[")
        while t[p[0]] != "]":
            if r:
                eat(",")
            eat("a", "(")
            k = string()
            eat(",")
            r[k] = string()
            eat(")")
        eat("]")
        return r

    def node():
        if t[p[0]] == "r":
            eat("r", "(")
            x = string()
            eat(")")
            return D.get("#" + x)
        eat("l", "(")
        name = string()
        eat(",", "n", "(")
        kind = string()
        eat(",")
        at = attrs()
        eat(",", "[")
        ed = {}
        while t[p[0]] != "]":
            if ed:
                eat(",")
            eat("e", "(")
            k = string()
            eat(",")
            ea = attrs()
            eat(",")
            f = node()
            eat(")")
            need(k not in ed, "daVinci: two edges %s" % k)
            # blue: then, green: else, red: complemented else
            need(ea.get("EDGECOLOR") in {"edge": ("blue", "red"), "then": ("blue",), "else": ("green", "red")}.get(k, ()), "daVinci: edge %s %s" % (k, ea))
            ed[k] = st.F ^ f if ea["EDGECOLOR"] == "red" else f
        eat("]", ")", ")")
        if kind == "constant":
            need(not ed and at["OBJECT"] == "1", "daVinci: constant %s" % at)
            f = st.F
        elif kind == "root":
            need(set(ed) == {"edge"}, "daVinci: root")
            D.set(name, ed["edge"])
            return ed["edge"]
        else:
            need(set(ed) == {"then", "else"} and at["OBJECT"] in D.d, "daVinci: node %s" % at)
            f = st.ite(D.get(at["OBJECT"]), ed["then"], ed["else"])
        D.set("#" + name, f)
        return f
    eat("[")
    first = True
    while t[p[0]] != "]":
        if not first:
            eat(",")
        first = False
        node()
    eat("]")
    need(p[0] == len(t), "daVinci: rest")
    D.outputs(fs)


def dot(st, fs, text):
    order = re.findall(r'" (v\d+) " -> ', text)
    need(len(set(order)) == len(order), "dot: order %s" % order)
    label, edges, roots = {}, {}, {}
    for v, body in re.findall(r'\{ rank = same; " (v\d+) ";\n((?:"(?:0x)?[0-9a-f]+";\n)*)\}', text):
        for x in re.findall(r'"((?:0x)?[0-9a-f]+)"', body):
            need(x not in label, "dot: node %s twice" % x)
            label[x] = v
    const = re.search(r'\{ rank = same; "CONST NODES";\n\{ node \[shape = box\]; ((?:"(?:0x)?[0-9a-f]+";\s*)*)\}', text)
    need(const, "dot: no constants")
    consts = set(re.findall(r'"((?:0x)?[0-9a-f]+)"', const.group(1)))
    value = dict(re.findall(r'^"((?:0x)?[0-9a-f]+)" \[label = "([^"]*)"\];$', text, re.M))
    need(set(value) == consts, "dot: constants %s and labels %s" % (consts, value))
    for a, b, s in re.findall(r'^"([^"]*)" -> "([^"]*)"(?: \[style = (\w+)\])?;$', text, re.M):
        if a.strip().startswith("out"):
            need(a.strip() not in roots and s in ("solid", "dotted"), "dot: root %s" % a)
            roots[a.strip()] = (b, s == "dotted")
        else:
            k = {"": "T", "dashed": "E", "dotted": "E"}.get(s)
            need(k and (a, k) not in edges, "dot: edge %s %s %s" % (a, b, s))
            edges[a, k] = (b, s == "dotted")
    memo = {}

    def val(x, c):
        if x not in memo:
            if x in value:
                need(value[x] == "1", "dot: constant %s" % value[x])
                memo[x] = st.F
            else:
                need(x in label and (x, "T") in edges and (x, "E") in edges, "dot: node %s" % x)
                memo[x] = st.ite(vars_by_name(st)[label[x]], val(*edges[x, "T"]), val(*edges[x, "E"]))
        return st.F ^ memo[x] if c else memo[x]
    need(len(edges) == 2 * len(label), "dot: %d edges of %d nodes" % (len(edges), len(label)))
    for i, f in enumerate(fs):
        need("out%d" % i in roots, "dot: no output %d" % i)
        g = val(*roots["out%d" % i])
        need(g == f, "dot: output %d is %s, expected %s" % (i, dd.hx(st, g), dd.hx(st, f)))


def cnf(st, f, mode, clauses, new, text):
    lines = [l for l in text.split("\n") if l and not l.startswith("c")]
    t = lines[0].split()
    need(t[:2] == ["p", "cnf"], "CNF: %s" % lines[0])
    toks = " ".join(lines[1:]).split()
    cls, cur = [], []
    for x in toks:
        if x == "0":
            cls.append(cur)
            cur = []
        else:
            cur.append(int(x))
    need(not cur, "CNF: the last clause does not end")
    need(int(t[3]) == clauses == len(cls), "CNF: header %s, returned %d, in the file %d clauses" % (lines[0], clauses, len(cls)))
    used = {abs(x) for c in cls for x in c}
    extra = sorted(x for x in used if x > st.n)
    need(len(extra) <= new and all(x <= st.n + new for x in extra), "CNF: %d new variables, but %s are used" % (new, extra))
    need(int(t[2]) >= max(used, default=0), "CNF: header %s, but variable %d is used" % (lines[0], max(used, default=0)))
    # existential projection by elimination of one new variable after the other
    n = st.n
    total = n + len(extra)
    if total > 20:
        return False
    F = (1 << (1 << total)) - 1

    def var(i):
        b = ((1 << (1 << i)) - 1) << (1 << i)
        w = 2 << i
        while w < (1 << total):
            b |= b << w
            w *= 2
        return b
    V = {}
    for x in used:
        V[x] = var(x - 1 if x <= n else n + extra.index(x))
    r = F
    for c in cls:
        d = 0
        for x in c:
            d |= V[x] if x > 0 else F ^ V[-x]
        r &= d
    for i in range(total - 1, n - 1, -1):
        r |= r >> (1 << i)
        r &= (1 << (1 << i)) - 1
    need(r == f, "CNF: the projection is %s, expected %s" % (dd.hx(st, r), dd.hx(st, f)))
    return True


def cubes(st, text, sep):
    """[(cube, value)]"""
    r = []
    for l in text.split("\n"):
        if not l.strip():
            continue
        need(len(l) > st.n and set(l[:st.n]) <= set("01-"), "line %r" % l)
        c = st.F
        for i, ch in enumerate(l[:st.n]):
            if ch != "-":
                c &= st.V[i] if ch == "1" else st.F ^ st.V[i]
        r.append((c, l[st.n:].strip(), l[:st.n]))
    return r


def perms(s):
    return [int(x) for x in s.split(",") if x]


def setb(st, d, tok, e):
    need(tok != "NULL", "no result")
    need(int(tok, 16) == e, "the result is %s, expected %s" % (tok, dd.hx(st, e)))
    st.B[d] = e


def image(st, f, to):
    """f with variable i called to[i]"""
    r = 0
    for m in range(1 << st.n):
        k = 0
        for i in range(st.n):
            k |= (m >> to[i] & 1) << i
        r |= (f >> k & 1) << m
    return r


def extra(st, l, res):
    name = l[0]
    a = l[1:]
    if name == "i_dddmp":
        rc, t = res.split()
        need(rc == "1", "storing fails")
        setb(st, a[0], t, st.B[a[1]])
    elif name == "i_dddmpa":
        k = a[0]
        src, dst = a[1:1 + k], a[2 + k:2 + 2 * k]
        kind = a[-1]
        t = res.split()
        need(t[0] == "1" and t[1] == str(k) and len(t) == 2 + k, "storing or loading fails")
        old = [st.B[i] for i in src]
        if kind:
            old.reverse()
        for i in range(k):
            need(int(t[2 + i], 16) == old[i], "root %d is %s, expected %s" % (i, t[2 + i], dd.hx(st, old[i])))
        for i in range(k):
            st.B[dst[i]] = old[i]
    elif name == "i_dddmpadd":
        rc, rest = res.split(" ", 1)
        need(rc == "1", "storing fails")
        k, closed, t = rest.split()
        need(k == "2,1", "loading the two roots gives %s" % k)
        need(closed == "1", "a file stays open")
        e = st.A[a[1]]
        need(dd.same_add(t, e), "the result is %s, expected %s" % (t, e))
        st.A[a[0]] = e
    elif name == "i_file":
        k = a[0]
        rc, perm, text = res.split(" ", 2)
        need(rc == "1", "storing fails")
        dddmp_file(st, [st.B[i] for i in a[1:1 + k]], a[-2], a[-1], perms(perm), unesc(text))
    elif name == "i_match":
        d, f, mode, kind = a[0], st.B[a[1]], a[2], a[3]
        n = st.n
        p = a[6:6 + n]
        rc, before, after, t = res.split(" ", 3)
        need(rc == "1", "storing fails")
        before, after = perms(before), perms(after)
        to = list(range(n))
        if kind == 1:
            inv = {l: v for v, l in enumerate(after)}
            to = [inv[before[i]] for i in range(n)]
        elif kind == 3:
            to = [p.index(i) for i in range(n)]
        elif kind == 4:
            to = p
        setb(st, d, t, image(st, f, to))
        if l[5] and hasattr(st, "order"):
            st.order = None
    elif name == "i_conv":
        t = res.split()
        need(t[:3] == ["1", "1", "1"] and len(t) == 6, "converting fails: %s" % res)
        f = st.B[a[1]]
        setb(st, a[0], t[4], f)
        setb(st, a[0], t[5], f)
    elif name in ("i_misc", "i_blif", "i_dot"):
        if name == "i_misc":
            kind, a = a[0], a[1:]
        fs = [st.B[i] for i in a[1:1 + a[0]]]
        if name == "i_misc" and kind >= 5:      # the variants for one root
            kind, fs = kind - 5, fs[:1]
        rc, text = res.split(" ", 1)
        need(rc == "1", "writing fails")
        text = unesc(text)
        if name == "i_dot":
            dot(st, fs, text)
        elif name == "i_blif":
            blif(st, fs, text, "", a[-1])
        else:
            [prefix, lambda *x: blif(*x, "node", 0), smv, ddcal, davinci][kind](st, fs, text)
    elif name == "i_bad":
        need(res == "0", "a file that cannot be opened or is empty is reported as %s" % res)
    elif name == "i_wide":
        need(res.split() == ["1", "1", "1", "0", "0", "0"], "storing and loading functions of many variables gives %s" % res)
    elif name == "i_header":
        k = a[0]
        fs, info, useNames = [st.B[i] for i in a[1:1 + k]], a[-2], a[-1]
        head, vs, order, perm = res.split("|")
        perm = [int(x) for x in perm.split()]
        supp = [i for i in range(st.n) if any(st.c0(f, i) != st.c1(f, i) for f in fs)]
        need(head.split() == ["1", "1", "0", str(st.n), str(len(supp)), str(k)], "header %s" % head)
        e = []
        for i in supp:
            e += ["v%d" % i if useNames else "-", str(i), str(perm[i]), str(i + 7)]
        need(vs.split() == e, "variables %s, expected %s" % (vs, e))
        need(order.split() == (["v%d" % i for i in sorted(range(st.n), key=lambda i: perm[i])] if useNames else []), "order of the names %s" % order)
    elif name == "i_cnf":
        rc, cl, new, text = res.split(" ", 3)
        need(rc == "1", "writing fails")
        if st.B[a[0]] in (0, st.F):
            return          # constants have no clauses
        cnf(st, st.B[a[0]], a[1], int(cl), int(new), unesc(text))
    elif name == "i_form":
        D = Defs(st, "factored form")
        g = infix(D, unesc(res.strip()), ("&", "|", "!", None))
        need(g == st.B[a[0]], "the factored form %s is %s, expected %s" % (res, dd.hx(st, g), dd.hx(st, st.B[a[0]])))
    elif name == "i_minterm":
        rc, text = res.split(" ", 1)
        need(rc == "1", "printing fails")
        u = 0
        for c, v, s in cubes(st, unesc(text), 2):
            need(v == "1" and not u & c, "cube %s %s" % (s, v))
            u |= c
        need(u == st.B[a[0]], "the cubes are %s, expected %s" % (dd.hx(st, u), dd.hx(st, st.B[a[0]])))
    elif name == "i_aminterm":
        rc, text = res.split(" ", 1)
        need(rc == "1", "printing fails")
        e = st.A[a[0]]
        seen = 0
        for c, v, s in cubes(st, unesc(text), 2):
            need(not seen & c, "cube %s overlaps" % s)
            seen |= c
            for m in range(1 << st.n):
                if c >> m & 1:
                    need(abs(float(v) - e[m]) <= 1e-4 * abs(e[m]), "cube %s %s, but the value there is %s" % (s, v, e[m]))
        for m in range(1 << st.n):
            need(e[m] == 0 or seen >> m & 1, "the value %s of minterm %d is not printed" % (e[m], m))
    elif name == "i_cover":
        rc, text = res.split(" ", 1) if " " in res else (res, "")
        lo, up = st.B[a[0]], st.B[a[1]]
        if lo & ~up:
            need(rc == "0", "a cover between functions that are not ordered")
            return
        need(rc == "1", "printing fails")
        u = 0
        for c, v, s in cubes(st, unesc(text), 1):
            need(v == "1", "cube %s %s" % (s, v))
            need(dd.is_prime(st, c, up), "the cube %s is not a prime implicant" % s)
            u |= c
        need(not lo & ~u and not u & ~up, "the cover %s is not between %s and %s" % (dd.hx(st, u), dd.hx(st, lo), dd.hx(st, up)))
    elif name.startswith("a_"):
        dd_add.check_op(st, name, a, res)
    else:
        raise Violation("unknown operation")


# ---------------------------------------------------------------- generator
KINDS = ["i_dddmp", "i_dddmpa", "i_dddmpadd", "i_file", "i_match", "i_conv", "i_misc", "i_blif", "i_dot", "i_cnf", "i_form", "i_minterm", "i_aminterm",
         "i_cover", "i_bad", "i_header", "i_wide"]


def gen_io(tc, p):
    n, R = p.n, 6
    reg = lambda: tc.choice(R)
    regs = lambda: (lambda k: [k] + [reg() for _ in range(k)])(tc.weighted([(3, 1), (3, 2), (2, 3)]))
    k = tc.weighted([(3, "i_dddmp"), (3, "i_dddmpa"), (2, "i_dddmpadd"), (3, "i_file"), (3, "i_match"), (2, "i_conv"), (5, "i_misc"), (2, "i_blif"), (2, "i_dot"),
                     (4, "i_cnf"), (2, "i_form"), (2, "i_minterm"), (1, "i_aminterm"), (2, "i_cover"), (1, "i_bad"), (2, "i_header"), (1, "i_wide")])
    if k == "i_dddmp":
        info, names = tc.choice(5), tc.choice(2)
        return [[k, reg(), reg(), tc.choice(2), info, 1 if info == NAMES else names, tc.choice(2)]]
    if k == "i_dddmpa":
        s = regs()
        return [[k] + s + [s[0]] + [reg() for _ in range(s[0])] + [tc.choice(2), tc.choice(2)]]
    if k in ("i_dddmpadd", "i_aminterm"):
        r = reg()
        pool = [tc.pick([0, 1, 2, 3, -1, 0.5, -2.5, 12, 1000]) for _ in range(tc.int(1, 5))]
        return [["a_vals", r] + [dd_add.num(tc.pick(pool)) for _ in range(1 << n)], [k, reg(), r, tc.choice(4)] if k == "i_dddmpadd" else [k, r]]
    if k == "i_bad":
        kind = tc.choice(14)
        return [[k, kind, tc.choice(2 if kind >= 6 and kind != 13 else 3), reg(), reg()]]
    if k == "i_wide":
        return [[k] + regs() + [n * tc.weighted([(3, 3), (2, 12), (2, 40 if n < 7 else 6), (1, 80 if n < 5 else 20 if n < 7 else 8)]), tc.choice(2), tc.choice(5), tc.choice(2) * tc.int(1, 1000),
                               tc.weighted([(3, 0), (1, 2), (1, 9)]), tc.choice(3)]]
    if k == "i_header":
        info, names = tc.choice(5), tc.choice(2)
        return [[k] + regs() + [tc.choice(2), info, 1 if info == NAMES else names]]
    if k == "i_file":
        info, names = tc.choice(5), tc.choice(2)
        return [[k] + regs() + [info, 1 if info == NAMES else names]]
    if k == "i_match":
        kind = tc.choice(5)
        return [[k, reg(), reg(), tc.choice(2), kind, 1 if tc.bool(0.5) else 0, n] + tc.shuffle(list(range(n))) + [n] + tc.shuffle(list(range(n)))]
    if k == "i_conv":
        return [[k, reg(), reg(), tc.choice(2), tc.choice(5)]]
    if k == "i_misc":
        return [[k, tc.choice(8)] + regs()]
    if k == "i_blif":
        return [[k] + regs() + [tc.choice(2)]]
    if k == "i_dot":
        return [[k] + regs()]
    if k == "i_cnf":
        return [[k, reg(), tc.choice(3), tc.pick([-1, 0, 1, 2, 3, 10]), tc.pick([-1, 0, 1, 2, 3, 10])]]
    if k == "i_cover":
        f, g = reg(), reg()
        pre = [["or", g, f, g]] if tc.bool(0.8) else []
        return pre + [[k, f, g]]
    return [[k, reg()]]
