"""Explicit-state evaluation of small NuSMV modules (Boolean and range variables, case assignments, LTL specifications)."""
import itertools, re
from .pbt import Violation
from . import strat

TOK = re.compile(r"\s*(?:(--[^\n]*)|(\.\.|->|!=|:=|<->|[A-Za-z_][A-Za-z0-9_\-.']*|\d+|[()\[\]{}:;,=<>!&|]))")


def tokens(text):
    out, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Violation("the NuSMV file cannot be read at %r" % text[i:i + 40])
        if m.group(2):
            out.append(m.group(2))
        i = m.end()
    return out


KEY = {"MODULE", "VAR", "IVAR", "ASSIGN", "LTLSPEC", "INIT", "TRANS", "DEFINE"}


class Model:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0
        self.ivars, self.vars, self.init, self.next, self.specs = {}, {}, {}, {}, []
        self.want("MODULE")
        self.want("main")
        while self.i < len(self.t):
            k = self.take()
            if k in ("VAR", "IVAR"):
                d = self.vars if k == "VAR" else self.ivars
                while self.peek() not in KEY and self.peek():
                    n = self.take()
                    if n in self.vars or n in self.ivars:
                        raise Violation("NuSMV: %s declared twice" % n)
                    self.want(":")
                    if self.peek() == "boolean":
                        self.take()
                        d[n] = [False, True]
                    else:
                        lo = int(self.take())
                        self.want("..")
                        d[n] = list(range(lo, int(self.take()) + 1))
                    self.want(";")
            elif k == "ASSIGN":
                while self.peek() not in KEY and self.peek():
                    w = self.take()
                    if w not in ("init", "next"):
                        raise Violation("NuSMV: assignment to %r" % w)
                    self.want("(")
                    n = self.take()
                    self.want(")")
                    self.want(":=")
                    d = self.init if w == "init" else self.next
                    if n not in self.vars or n in d:
                        raise Violation("NuSMV: bad assignment to %s" % n)
                    d[n] = self.value()
                    self.want(";")
            elif k == "LTLSPEC":
                self.specs.append(self.impl())
                if self.peek() == ";":
                    self.take()
            else:
                raise Violation("NuSMV: unexpected %r" % k)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def take(self):
        if self.i >= len(self.t):
            raise Violation("NuSMV: unexpected end")
        self.i += 1
        return self.t[self.i - 1]

    def want(self, x):
        y = self.take()
        if y != x:
            raise Violation("NuSMV: %r instead of %r near %r" % (y, x, " ".join(self.t[max(0, self.i - 8):self.i + 4])))

    def value(self):
        if self.peek() == "case":
            self.take()
            cs = []
            while self.peek() != "esac":
                c = self.impl()
                self.want(":")
                cs.append((c, self.value()))
                self.want(";")
            self.take()
            return ("case", cs)
        if self.peek() == "{":
            self.take()
            v = [self.value()]
            while self.peek() == ",":
                self.take()
                v.append(self.value())
            self.want("}")
            return ("set", v)
        return self.impl()

    def impl(self):
        a = self.or_()
        if self.peek() == "->":
            self.take()
            return ("|", ("!", a), self.impl())
        if self.peek() == "<->":
            self.take()
            b = self.impl()
            return ("|", ("&", a, b), ("&", ("!", a), ("!", b)))
        return a

    def or_(self):
        a = self.and_()
        while self.peek() == "|":
            self.take()
            a = ("|", a, self.and_())
        return a

    def and_(self):
        a = self.temporal()
        while self.peek() == "&":
            self.take()
            a = ("&", a, self.temporal())
        return a

    def temporal(self):
        a = self.un()
        while self.peek() in ("U", "V"):
            op = self.take()
            a = ("U" if op == "U" else "R", a, self.un())
        return a

    def un(self):
        p = self.peek()
        if p == "!":
            self.take()
            return ("!", self.un())
        if p == "X":
            self.take()
            return ("X", self.un())
        if p == "G":
            self.take()
            return ("R", ("c", False), self.un())
        if p == "F":
            self.take()
            return ("U", ("c", True), self.un())
        a = self.prim()
        if self.peek() in ("=", "!=", "<", ">"):
            op = self.take()
            return ("r", op, a, self.prim())
        return a

    def prim(self):
        p = self.take()
        if p == "(":
            a = self.impl()
            self.want(")")
            return a
        if p in ("TRUE", "FALSE"):
            return ("c", p == "TRUE")
        if p.isdigit():
            return ("c", int(p))
        if p in self.vars or p in self.ivars:
            return ("v", p)
        raise Violation("NuSMV: unknown identifier %r" % p)

    # ---------------------------------------------------------------- model
    def ev(self, f, env):
        t = f[0]
        if t == "c":
            return f[1]
        if t == "v":
            return env[f[1]]
        if t == "!":
            return not self.ev(f[1], env)
        if t == "&":
            return self.ev(f[1], env) and self.ev(f[2], env)
        if t == "|":
            return self.ev(f[1], env) or self.ev(f[2], env)
        if t == "r":
            a, b = self.ev(f[2], env), self.ev(f[3], env)
            if isinstance(a, bool) or isinstance(b, bool):
                raise Violation("NuSMV: comparison of Booleans with numbers")
            return {"=": a == b, "!=": a != b, "<": a < b, ">": a > b}[f[1]]
        raise Violation("NuSMV: temporal operator in an assignment")

    def choices(self, v, env):
        if v[0] == "case":
            for c, x in v[1]:
                if self.ev(c, env):
                    return self.choices(x, env)
            raise Violation("NuSMV: no case applies for %r" % (env,))
        if v[0] == "set":
            return [y for x in v[1] for y in self.choices(x, env)]
        return [self.ev(v, env)]

    def prepare(self):
        """nodes: (values of the variables, values of the input variables that occur in specifications)"""
        used = set()

        def walk(f):
            if f[0] == "v":
                used.add(f[1])
            for x in f[1:]:
                if isinstance(x, tuple):
                    walk(x)
        for f in self.specs:
            walk(f)
        self.vn, self.seen = list(self.vars), [n for n in self.ivars if n in used]
        self.hidden = [n for n in self.ivars if n not in used]
        self.cache = {}

    def allowed(self, n, vals):
        for x in vals:
            if x not in self.vars[n] or isinstance(x, bool) != (self.vars[n][0] is False):
                raise Violation("NuSMV: %s gets the value %r" % (n, x))
        return sorted(set(vals))

    def nodes(self, states):
        ins = list(itertools.product(*[self.ivars[n] for n in self.seen]))
        return [(s, i) for s in states for i in ins]

    def roots(self):
        return self.nodes(itertools.product(*[self.allowed(n, self.choices(self.init[n], {})) if n in self.init else self.vars[n]
                                              for n in self.vn]))

    def succ(self, node):
        r = self.cache.get(node)
        if r is None:
            st = {}
            for h in itertools.product(*[self.ivars[n] for n in self.hidden]):
                env = dict(zip(self.vn, node[0]))
                env.update(zip(self.seen, node[1]))
                env.update(zip(self.hidden, h))
                for s in itertools.product(*[self.allowed(n, self.choices(self.next[n], env)) if n in self.next else self.vars[n]
                                             for n in self.vn]):
                    st[s] = 1
            r = self.cache[node] = self.nodes(st)
        return r

    # ---------------------------------------------------------------- specifications
    def holds(self, spec, limit=20000):
        """Does every path satisfy the formula? (on-the-fly tableau of its negation; formulas without U and R are progressed)"""
        neg = nnf(("!", spec))
        todo, adj, fulfilled, succ_of = [], {}, {}, {}
        work = 0
        supports, known = {}, {}

        def start(node, obls):
            """tableau states for the obligations at the node: (next obligations, unfulfilled untils)"""
            env = dict(zip(self.vn, node[0]))
            env.update(zip(self.seen, node[1]))
            obls = frozenset(obls)
            sup = supports.get(obls)
            if sup is None:
                sup = supports[obls] = sorted(set().union(*[support(f) for f in obls]))
            key = (obls, tuple([env[x] for x in sup]))
            done = known.get(key)
            if done is not None:
                return [(node, a, b) for a, b in done]
            done = known[key] = []
            stack = [([], list(obls), frozenset(), frozenset())]
            while stack:
                later, now, nxt, waiting = stack.pop()     # later: formulas that branch
                ok = True
                while now or later:
                    branching = not now
                    f = later.pop() if branching else now.pop()
                    t = f[0]
                    if bounded(f):
                        g = self.progress(f, env)
                        if g == FALSE:
                            ok = False
                            break
                        nxt |= conjuncts(g)
                    elif t == "&":
                        now += [f[1], f[2]]
                    elif t == "X":
                        nxt |= {f[1]}
                    elif t == "R" and f[1] == FALSE:
                        now.append(f[2])
                        nxt |= {f}
                    elif not branching:
                        later.append(f)
                    elif t == "|":
                        stack.append((list(later), now + [f[2]], nxt, waiting))
                        now.append(f[1])
                    elif t == "U":
                        g = self.progress(f[2], env) if bounded(f[2]) else None
                        if g == TRUE:
                            continue
                        if g == FALSE:
                            nxt, waiting = nxt | {f}, waiting | {f}
                            now.append(f[1])
                            continue
                        stack.append((list(later), now + [f[1]], nxt | {f}, waiting | {f}))
                        now.append(f[2])
                    elif t == "R":
                        stack.append((list(later), now + [f[1], f[2]], nxt, waiting))
                        now.append(f[2])
                        nxt |= {f}
                if ok:
                    done.append((nxt, waiting))
            return [(node, a, b) for a, b in done]
        first = [s for n in self.roots() for s in start(n, [neg])]
        todo = list(dict.fromkeys(first))
        adj = {s: None for s in todo}
        untils = set()
        while todo:
            s = todo.pop()
            out = {}
            for n in self.succ(s[0]):
                work += 1
                for q in start(n, s[1]):
                    out[q] = 1
                    if q not in adj:
                        adj[q] = None
                        todo.append(q)
            adj[s] = list(out)
            untils |= s[2]
            if work > limit:
                return None
        for comp in strat.sccs(adj):
            if len(comp) == 1:
                v = next(iter(comp))
                if v not in adj[v]:
                    continue
            if all(any(u not in v[2] for v in comp) for u in untils):
                return False
        return True

    def progress(self, f, env):
        t = f[0]
        if t == "X":
            return f[1]
        if t == "&" or t == "|":
            a = self.progress(f[1], env)
            stop = ("c", t == "|")
            if a == stop:
                return a
            b = self.progress(f[2], env)
            if b == stop or a == ("c", t == "&"):
                return b
            return a if b == ("c", t == "&") else (t, a, b)
        return ("c", bool(self.ev(f, env)))


BOUND = {}
TRUE, FALSE = ("c", True), ("c", False)


def support(f):
    if f[0] == "v":
        return {f[1]}
    return set().union(*[support(x) for x in f[1:] if isinstance(x, tuple)])


def conjuncts(f):
    if f == TRUE:
        return frozenset()
    if f[0] == "&":
        return conjuncts(f[1]) | conjuncts(f[2])
    return frozenset([f])


def bounded(f):
    r = BOUND.get(f)
    if r is None:
        if len(BOUND) > 100000:
            BOUND.clear()
        r = f[0] not in ("U", "R") and all(bounded(x) for x in f[1:] if isinstance(x, tuple))
        BOUND[f] = r
    return r


def nnf(f, neg=False):
    t = f[0]
    if t == "!":
        return nnf(f[1], not neg)
    if t in ("&", "|"):
        return (t if not neg else "&|"[t == "&"], nnf(f[1], neg), nnf(f[2], neg))
    if t == "X":
        return ("X", nnf(f[1], neg))
    if t in ("U", "R"):
        return (t if not neg else "UR"[t == "U"], nnf(f[1], neg), nnf(f[2], neg))
    if t == "c":
        return ("c", f[1] != neg) if isinstance(f[1], bool) else f
    return ("!", f) if neg else f
