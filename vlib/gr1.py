"""Explicit-state reference semantics of slugs specifications.

Independent of slugs: formulas are evaluated on truth tables, games are solved on explicit arrays.

Index layout of a truth table over k = ni + no variables: index = pre * 2^k + post with
state = in * 2^no + out; input i / output j is bit i of `in` / bit j of `out`.
"""
import functools
import numpy as np

SECTIONS = ["ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"]


# ------------------------------------------------------------------ formulas
def V(name, primed=False):
    return ("v", name, primed)


def to_slugs(f):
    t = f[0]
    if t == "v":
        return f[1] + ("'" if f[2] else "")
    if t in "01":
        return t
    if t == "!":
        return "! " + to_slugs(f[1])
    if t in "&|^":
        return t + " " + to_slugs(f[1]) + " " + to_slugs(f[2])
    if t == "$":
        return "$ %d " % len(f[1]) + " ".join(to_slugs(x) for x in f[1])
    if t == "?":
        return "? %d" % f[1]
    raise ValueError(f)


def atoms_of(f, acc=None):
    if acc is None:
        acc = set()
    t = f[0]
    if t == "v":
        acc.add((f[1], f[2]))
    elif t == "!":
        atoms_of(f[1], acc)
    elif t in "&|^":
        atoms_of(f[1], acc)
        atoms_of(f[2], acc)
    elif t == "$":
        for x in f[1]:
            atoms_of(x, acc)
    return acc


@functools.lru_cache(maxsize=None)
def var_tt(bit, nbits):
    """Truth table (as an integer of 2^nbits bits) of the variable at position `bit`."""
    block = ((1 << (1 << bit)) - 1) << (1 << bit)
    width = 1 << (bit + 1)
    total = 1 << nbits
    v = block
    w = width
    while w < total:
        v |= v << w
        w *= 2
    return v


class Spec:
    def __init__(self, inputs, outputs, **sections):
        self.inputs = list(inputs)
        self.outputs = list(outputs)
        for s in SECTIONS:
            setattr(self, s, list(sections.get(s, [])))

    @property
    def ni(self):
        return len(self.inputs)

    @property
    def no(self):
        return len(self.outputs)

    @property
    def k(self):
        return len(self.inputs) + len(self.outputs)

    def copy(self):
        return Spec(self.inputs, self.outputs, **{s: list(getattr(self, s)) for s in SECTIONS})

    # ---- text
    def text(self, slow=None):
        """slow: None for the normal format; otherwise the outputs that are slow in the fast-slow format"""
        if slow is None:
            o = ["[INPUT]"] + self.inputs + ["", "[OUTPUT]"] + self.outputs + [""]
        else:
            o = ["[INPUT]"] + self.inputs + ["", "[OUTPUT_F]"] + [x for x in self.outputs if x not in slow]
            o += ["", "[OUTPUT_S]"] + [x for x in self.outputs if x in slow] + [""]
        for s in SECTIONS:
            if getattr(self, s):
                o += ["[%s]" % s] + [to_slugs(f) for f in getattr(self, s)] + [""]
        return "\n".join(o)

    # ---- evaluation
    def bit(self, name, primed):
        k, no = self.k, self.no
        if name in self.outputs:
            b = self.outputs.index(name)
        else:
            b = no + self.inputs.index(name)
        return b if primed else k + b

    def tt(self, f, mem=None):
        nb = 2 * self.k
        full = (1 << (1 << nb)) - 1
        t = f[0]
        if t == "v":
            return var_tt(self.bit(f[1], f[2]), nb)
        if t == "1":
            return full
        if t == "0":
            return 0
        if t == "!":
            return full ^ self.tt(f[1], mem)
        if t == "&":
            return self.tt(f[1], mem) & self.tt(f[2], mem)
        if t == "|":
            return self.tt(f[1], mem) | self.tt(f[2], mem)
        if t == "^":
            return self.tt(f[1], mem) ^ self.tt(f[2], mem)
        if t == "$":
            m = []
            for x in f[1]:
                m.append(self.tt(x, m))
            return m[-1]
        if t == "?":
            return mem[f[1]]
        raise ValueError(f)

    def arr(self, f):
        """bool array of shape (S, I, O)"""
        nb = 2 * self.k
        n = 1 << nb
        v = self.tt(f)
        a = np.unpackbits(np.frombuffer(v.to_bytes(max(1, n // 8), "little"), dtype=np.uint8), bitorder="little")[:n]
        return a.astype(bool).reshape(1 << self.k, 1 << self.ni, 1 << self.no)

    def conj(self, fs):
        a = np.ones((1 << self.k, 1 << self.ni, 1 << self.no), dtype=bool)
        for f in fs:
            a &= self.arr(f)
        return a

    def state_str(self, s):
        i, o = s >> self.no, s & ((1 << self.no) - 1)
        return ", ".join(["%s:%d" % (n, i >> b & 1) for b, n in enumerate(self.inputs)] +
                         ["%s:%d" % (n, o >> b & 1) for b, n in enumerate(self.outputs)])


class Game:
    """The transition-based GR(1) game of a specification."""

    def __init__(self, spec):
        self.spec = spec
        self.S, self.I, self.O = 1 << spec.k, 1 << spec.ni, 1 << spec.no
        # init constraints depend on pre-variables only
        self.initEnv = spec.conj(spec.ENV_INIT)[:, 0, 0].copy()
        self.initSys = spec.conj(spec.SYS_INIT)[:, 0, 0].copy()
        self.E = spec.conj(spec.ENV_TRANS)[:, :, 0].copy()      # (S, I)
        self.T = spec.conj(spec.SYS_TRANS)                       # (S, I, O)
        self.A = [spec.arr(f) for f in spec.ENV_LIVENESS] or [np.ones_like(self.T)]
        self.G = [spec.arr(f) for f in spec.SYS_LIVENESS] or [np.ones_like(self.T)]
        self._win = None

    def to(self, Z):
        """transitions that lead to Z"""
        return Z.reshape(1, self.I, self.O)

    def cox(self, F):
        """states from which the system can enforce a transition of F that satisfies its safety part (or the
        environment violates its safety part)"""
        return ((F & self.T).any(axis=2) | ~self.E).all(axis=1)

    def winning(self):
        if self._win is None:
            self._win = self._solve()
        return self._win

    def _solve(self):
        Z = np.ones(self.S, dtype=bool)
        while True:
            newZ = np.ones(self.S, dtype=bool)
            for G in self.G:
                goal = G & self.to(Z)
                Y = np.zeros(self.S, dtype=bool)
                while True:
                    live = goal | self.to(Y)
                    nY = Y.copy()
                    for A in self.A:
                        X = np.ones(self.S, dtype=bool)
                        while True:
                            nX = self.cox(live | (~A & self.to(X)))
                            if (nX == X).all():
                                break
                            X = nX
                        nY |= X
                    if (nY == Y).all():
                        break
                    Y = nY
                newZ &= Y
            newZ &= Z
            if (newZ == Z).all():
                return Z
            Z = newZ

    def winning_parity(self):
        """Second, structurally different solver (three-priority parity game on the product with two counters, solved by
        Zielonka's algorithm); used to validate _solve."""
        nA, nG = len(self.A), len(self.G)
        # Vertices: env: (s, i, j, prio), sys: (s, i, j, in'); dead ends lose for their owner.
        idx = {}
        owner, prio, succ = [], [], []

        def vid(key, o, p):
            if key not in idx:
                idx[key] = len(owner)
                owner.append(o)
                prio.append(p)
                succ.append(None)
                todo.append(key)
            return idx[key]
        todo = []
        for s in range(self.S):
            vid(("e", s, 0, 0, 0), 1, 0)
        while todo:
            key = todo.pop()
            v = idx[key]
            if key[0] == "e":
                _, s, i, j, p = key
                succ[v] = [vid(("s", s, i, j, x), 0, 0) for x in range(self.I) if self.E[s, x]]
            else:
                _, s, i, j, x = key
                r = []
                for o in range(self.O):
                    if self.T[s, x, o]:
                        ni, nj, p = i, j, 0
                        if self.A[i][s, x, o]:
                            ni = i + 1
                            if ni == nA:
                                ni, p = 0, 1
                        if self.G[j][s, x, o]:
                            nj = j + 1
                            if nj == nG:
                                nj, p = 0, 2
                        r.append(vid(("e", x * self.O + o, ni, nj, p), 1, p))
                succ[v] = r
        n = len(owner)
        pred = [[] for _ in range(n)]
        for v in range(n):
            for w in succ[v]:
                pred[w].append(v)

        def attr(player, target, region):
            # region: set; vertices of `player` need one edge, of the opponent all edges within region
            A = set(target)
            cnt = {}
            q = list(target)
            while q:
                w = q.pop()
                for v in pred[w]:
                    if v in region and v not in A:
                        if owner[v] == player:
                            A.add(v)
                            q.append(v)
                        else:
                            if v not in cnt:
                                cnt[v] = sum(1 for u in succ[v] if u in region)
                            cnt[v] -= 1
                            if cnt[v] == 0:
                                A.add(v)
                                q.append(v)
            return A
        import sys
        sys.setrecursionlimit(100000)

        def zielonka(region):
            if not region:
                return set(), set()
            d = max(prio[v] for v in region)
            pl = d % 2   # player 0 (system) likes even
            U = {v for v in region if prio[v] == d}
            A = attr(pl, U, region)
            W = list(zielonka(region - A))
            if not W[1 - pl]:
                W[pl] = set(region)
                W[1 - pl] = set()
                return tuple(W)
            B = attr(1 - pl, W[1 - pl], region)
            W2 = list(zielonka(region - B))
            W2[1 - pl] |= B
            return tuple(W2)
        # dead ends: sys vertex without successors loses for sys; env vertex without successors is won by sys
        region = set(range(n))
        lose = attr(1, {v for v in region if owner[v] == 0 and not succ[v]}, region)
        region -= lose
        winE = attr(0, {v for v in region if owner[v] == 1 and not any(u in region for u in succ[v])
                        and not any(u in lose for u in succ[v])}, region)
        # an env vertex with a successor in `lose` is itself in `lose`
        region -= winE
        W = zielonka(region)
        sysw = W[0] | winE
        r = np.zeros(self.S, dtype=bool)
        for s in range(self.S):
            r[s] = idx[("e", s, 0, 0, 0)] in sysw
        return r

    def realizable(self, win=None):
        """forall allowed initial inputs, exists an allowed initial output in the winning region"""
        if win is None:
            win = self.winning()
        ok = (win & self.initSys).reshape(self.I, self.O).any(axis=1)
        env = self.initEnv.reshape(self.I, self.O)[:, 0]
        return bool((ok | ~env).all())

    def realizable_robotics(self, win=None):
        """all positions allowed by both initialization parts are winning"""
        if win is None:
            win = self.winning()
        return bool((win | ~(self.initEnv & self.initSys)).all())


# ------------------------------------------------------------------ generators
NAMES_IN = ["a", "b", "c", "d", "in_e"]
NAMES_OUT = ["x", "y", "z", "w", "out_q"]


def gen_literal(tc, atoms):
    a = tc.pick(atoms)
    f = V(*a)
    return ("!", f) if tc.bool(0.5) else f


def gen_formula(tc, atoms, depth):
    if not atoms:
        return (tc.pick(["1", "0"]),)
    kind = tc.weighted([(4 if depth > 0 else 20, "lit"), (3 if depth > 0 else 0, "or"), (3 if depth > 0 else 0, "and"),
                        (2 if depth > 0 else 0, "xor"), (1 if depth > 0 else 0, "not"), (1, "const")])
    if kind == "lit":
        return gen_literal(tc, atoms)
    if kind == "const":
        return (tc.pick(["1", "0"]),)
    if kind == "not":
        return ("!", gen_formula(tc, atoms, depth - 1))
    op = {"or": "|", "and": "&", "xor": "^"}[kind]
    return (op, gen_formula(tc, atoms, depth - 1), gen_formula(tc, atoms, depth - 1))


def gen_clause(tc, atoms, lo=1, hi=3):
    if not atoms:
        return (tc.pick(["1", "0"]),)
    n = tc.int(lo, hi)
    f = gen_literal(tc, atoms)
    for _ in range(n - 1):
        f = ("|", gen_literal(tc, atoms), f)
    return f


def gen_constraint(tc, atoms, depth=2):
    """A transition constraint: mostly clauses and equalities, sometimes arbitrary formulas."""
    kind = tc.weighted([(5, "clause"), (3, "iff"), (2, "cube"), (3, "formula")])
    if kind == "clause":
        return gen_clause(tc, atoms, 1, 4)
    if kind == "iff":
        return ("!", ("^", gen_literal(tc, atoms) if atoms else ("1",), gen_clause(tc, atoms, 1, 2)))
    if kind == "cube":
        return ("!", gen_clause(tc, atoms, 1, 3))
    return gen_formula(tc, atoms, depth)


def gen_spec(tc, max_in=3, max_out=3, min_in=0, min_out=0, max_sec=4, post_liveness=True, max_live=3, init=True,
             env_live=True, graphs=True):
    if max_live == 3 and tc.bool(0.03):
        max_live = 7
    ni = tc.weighted([(2, 1), (3, 2), (3, 3), (1, 0)][: 4])
    ni = max(min_in, min(ni, max_in))
    no = tc.weighted([(2, 1), (3, 2), (3, 3), (1, 0)])
    no = max(min_out, min(no, max_out))
    sp = Spec(NAMES_IN[:ni], NAMES_OUT[:no])
    pi = [(n, False) for n in sp.inputs]
    po = [(n, False) for n in sp.outputs]
    qi = [(n, True) for n in sp.inputs]
    qo = [(n, True) for n in sp.outputs]
    pool = {"ENV_INIT": pi, "SYS_INIT": pi + po + po, "ENV_TRANS": pi + po + qi + qi, "SYS_TRANS": pi + po + qi + qo + qo,
            "ENV_LIVENESS": pi + po + (qi + qi + qo if post_liveness else []),
            "SYS_LIVENESS": pi + po + (qi + qo + qo if post_liveness else [])}
    dense = tc.weighted([(5, 0.6), (3, 0.8), (2, 0.3)])
    sp.kind = "clauses"
    if graphs and sp.no > 0 and sp.ni > 0 and sp.k <= 4 and tc.bool(0.55):
        return gen_table_sections(tc, sp, pool, max_live, post_liveness, init, env_live)
    if graphs and sp.no > 0 and tc.bool(0.55):
        return gen_graph_sections(tc, sp, pool, max_live, post_liveness, init, env_live)
    for s in SECTIONS:
        if s in ("ENV_INIT", "SYS_INIT"):
            if init:
                setattr(sp, s, tc.list(lambda t: gen_clause(t, pool[s], 1, 2) if t.bool(0.8) else gen_formula(t, pool[s], 2),
                                       0, 2, 0.45))
        elif s.endswith("TRANS"):
            setattr(sp, s, tc.list(lambda t: gen_constraint(t, pool[s]), 0, max_sec if s == "SYS_TRANS" else max(1, max_sec - 1),
                                   dense if s == "SYS_TRANS" else 0.5))
        else:
            if s == "ENV_LIVENESS" and not env_live:
                continue
            setattr(sp, s, tc.list(lambda t: gen_clause(t, pool[s], 1, 2) if t.bool(0.6) else
                                   (("!", gen_clause(t, pool[s], 1, 3)) if t.bool(0.6) else gen_formula(t, pool[s], 2)),
                                   0, max_live, 0.6))
    return sp


def gen_graph_sections(tc, sp, pool, max_live, post_liveness, init, env_live):
    sp.kind = "graph"
    """Graph-like games: the transition relations are what wide random clauses leave over, the liveness goals are small
    cubes. Such games have several fixed point iterations and winning regions that are neither empty nor everything."""
    if init:
        sp.ENV_INIT = tc.list(lambda t: gen_clause(t, pool["ENV_INIT"], 1, 2), 0, 2, 0.5)
        sp.SYS_INIT = tc.list(lambda t: gen_clause(t, pool["SYS_INIT"], 1, 2), 0, 3, 0.6)
    pre = [(n, False) for n in sp.inputs + sp.outputs]
    post = [(n, True) for n in sp.outputs]
    qi = [(n, True) for n in sp.inputs]

    def edge(t, targets):
        # forbids some (state cube, target cube) combinations
        f = gen_literal(t, targets)
        for _ in range(t.int(0, 1)):
            f = ("|", gen_literal(t, targets), f)
        for _ in range(t.int(1, 3)):
            f = ("|", gen_literal(t, pre + (qi if targets is post else [])), f)
        return f
    sp.SYS_TRANS = tc.list(lambda t: edge(t, post), 1, 12, tc.pick([0.8, 0.6]))
    if sp.inputs:
        sp.ENV_TRANS = tc.list(lambda t: edge(t, qi), 0, 6, 0.7)
    if sp.no > 1 and tc.bool(0.55):
        # slow movement: some pairs of outputs do not change at the same time
        for i in range(sp.no):
            for j in range(i):
                if not tc.bool(0.25):
                    sp.SYS_TRANS.append(("!", ("&", ("^", V(sp.outputs[i]), V(sp.outputs[i], True)),
                                               ("^", V(sp.outputs[j]), V(sp.outputs[j], True)))))
    if sp.ni > 1 and tc.bool(0.35):
        sp.ENV_TRANS.append(("!", ("&", ("^", V(sp.inputs[0]), V(sp.inputs[0], True)),
                                   ("^", V(sp.inputs[1]), V(sp.inputs[1], True)))))
    live = pre + (post + qi if post_liveness else [])
    if sp.no and tc.bool(0.4):
        live = [(n, False) for n in sp.outputs]

    def cube(t):
        f = gen_literal(t, live)
        for _ in range(t.weighted([(2, 1), (3, 2), (2, 3), (2, 0)])):
            f = ("&", gen_literal(t, live), f)
        return f
    if env_live:
        sp.ENV_LIVENESS = tc.list(cube, 0, max_live, 0.6)
    sp.SYS_LIVENESS = tc.list(cube, 0, max_live, 0.75)
    return sp


def cube(names, val, primed):
    r = None
    for b, n in enumerate(names):
        v = V(n, primed)
        v = v if val >> b & 1 else ("!", v)
        r = v if r is None else ("&", v, r)
    return r if r is not None else ("1",)


def gen_table_sections(tc, sp, pool, max_live, post_liveness, init, env_live):
    sp.kind = "table"
    """Sparse random game graphs: for many (state, next input) pairs only one or two next outputs are allowed."""
    if init:
        sp.ENV_INIT = tc.list(lambda t: gen_clause(t, pool["ENV_INIT"], 1, 2), 0, 2, 0.4)
        sp.SYS_INIT = tc.list(lambda t: gen_clause(t, pool["SYS_INIT"], 1, 2), 0, 3, 0.5)
    S, I, O = 1 << sp.k, 1 << sp.ni, 1 << sp.no
    names = sp.outputs + sp.inputs
    multi = tc.pick([0.35, 0.6, 0.8])
    for s in range(S):
        src = cube(names, s, False)
        if tc.bool(0.25):
            sp.ENV_TRANS.append(("|", ("!", src), cube(sp.inputs, tc.choice(I), True)))
        # what the input does not matter for
        if tc.bool(0.85):
            f = cube(sp.outputs, tc.choice(O), True)
            if tc.bool(multi):
                f = ("|", cube(sp.outputs, tc.choice(O), True), f)
            if sp.ni and tc.bool(0.5):
                i = cube(sp.inputs, tc.choice(I), True)
                h = cube(sp.outputs, tc.choice(O), True)
                if tc.bool(multi):
                    h = ("|", cube(sp.outputs, tc.choice(O), True), h)
                f = ("|", ("&", i, f), ("&", ("!", i), h))
            elif tc.bool(0.08):
                f = ("0",)
            sp.SYS_TRANS.append(("|", ("!", src), f))

    def goal(t):
        f = cube(names, t.choice(S), False)
        while t.bool(0.45):
            f = ("|", cube(names, t.choice(S), False), f)
        if post_liveness and t.bool(0.25):
            f = ("|", ("&", gen_literal(t, pool["SYS_LIVENESS"]), gen_literal(t, pool["SYS_LIVENESS"])), f)
        return f
    if env_live:
        sp.ENV_LIVENESS = tc.list(goal, 0, max_live, 0.75)
    sp.SYS_LIVENESS = tc.list(goal, 0, max_live, 0.9)
    return sp
