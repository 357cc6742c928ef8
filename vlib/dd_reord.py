"""C36: variable reordering. Programs of BDD operations, variable groups, shuffles and reorderings with every method."""
import itertools
from vlib import dd
from vlib.dd import need
from vlib.pbt import Violation

METHODS = [4, 21, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]
FREE = {6, 7}         # no promise about the size
NAMES = {2: "random", 3: "random pivot", 4: "sifting", 5: "converging sifting", 6: "symmetric sifting", 7: "converging symmetric sifting",
         8: "window 2", 9: "window 3", 10: "window 4", 11: "converging window 2", 12: "converging window 3", 13: "converging window 4",
         14: "group sifting", 15: "converging group sifting", 16: "annealing", 17: "genetic", 21: "exact"}


def nodes(s, fs, order):
    """size of the shared reduced diagram with complement edges"""
    F = s.F
    cur = {min(f, f ^ F) for f in fs}
    n = 1
    for v in order:
        nxt = set()
        for g in cur:
            a, b = s.c0(g, v), s.c1(g, v)
            if a != b:
                n += 1
                nxt.add(min(a, a ^ F))
                nxt.add(min(b, b ^ F))
            else:
                nxt.add(g)
        cur = nxt
    return n


def minimum(s, fs):
    """least size over all orders (dynamic programming over the sets of variables on top)"""
    F = s.F
    layer = {0: (0, {min(f, f ^ F) for f in fs})}
    for _ in range(s.n):
        nxt = {}
        for S, (c, cur) in layer.items():
            for v in range(s.n):
                if S >> v & 1:
                    continue
                new, k = set(), 0
                for g in cur:
                    a, b = s.c0(g, v), s.c1(g, v)
                    if a != b:
                        k += 1
                        new.add(min(a, a ^ F))
                        new.add(min(b, b ^ F))
                    else:
                        new.add(g)
                T = S | 1 << v
                if T not in nxt or nxt[T][0] > c + k:
                    nxt[T] = (c + k, new)
        layer = nxt
    return layer[(1 << s.n) - 1][0] + 1


def extra(st, l, res):
    name = l[0]
    if not hasattr(st, "groups"):
        st.groups, st.order = [], list(range(st.n))
    if name == "m_group":
        lo, k, fixed = l[1:]
        need(res == "1", "the group cannot be made")
        st.groups.append(([lo + i for i in range(k)], fixed))
    elif name == "m_treefree":
        st.groups = []
    elif name == "m_reorder2":
        t = [int(x) for x in res.split()]
        rc, before, after, order = t[0], t[1], t[2], t[3:]
        need(rc == 1, "reordering fails")
        need(sorted(order) == list(range(st.n)), "the order %s is not a permutation" % order)
        need(after == nodes(st, st.B, order), "the functions have %d nodes, but the reduced diagram for the order %s has %d" % (after, order, nodes(st, st.B, order)))
        if not st.groups:
            need(after <= before or l[1] in FREE, "the size grows from %d to %d" % (before, after))
            if l[1] == 21 and st.n <= 7:
                m = minimum(st, st.B)
                need(after == m, "exact reordering reaches %d nodes, the minimum is %d" % (after, m))
            if 8 <= l[1] <= 13:
                check_windows(st, order, after, l[1])
        check_groups(st, order)
    elif name == "m_lgroup":
        low, k, fixed = l[1:]
        t = [int(x) for x in res.split()]
        order = t[1:]
        at = order.index(low)
        g = order[at:at + k]
        cut = any(set(g) & set(h) and not set(g) <= set(h) and not set(h) <= set(g) for h, _ in st.groups)
        if at + k <= st.n:
            need(t[0] == (0 if cut else 1), "making a group of %s returns %d, the order is %s, the other groups are %s" % (g, t[0], order, [h for h, _ in st.groups]))
            if not cut:
                # the same group again becomes a subgroup, whose flag is the one that counts
                st.groups = [(h, f) for h, f in st.groups if set(h) != set(g)] + [(g, fixed)]
    elif name == "m_gshuffle":
        t = [int(x) for x in res.split()]
        new = l[2:]
        pos = {v: i for i, v in enumerate(new)}
        ok = all(max(pos[v] for v in g) - min(pos[v] for v in g) == len(g) - 1 for g, _ in st.groups)
        need(sorted(t[1:]) == list(range(st.n)), "the order %s is not a permutation" % t[1:])
        need(t[0] == (1 if ok or t[0] and new == t[1:] else 0), "setting the order %s returns %d, the groups are %s" % (new, t[0], [g for g, _ in st.groups]))
        if ok:
            need(t[1:] == new, "the order after shuffling is %s, expected %s" % (t[1:], new))
            # the given order is the one that fixed groups keep from now on
            st.groups = [(sorted(g, key=lambda v: pos[v]), f) for g, f in st.groups]
        check_groups(st, t[1:])
    elif name == "m_groups":
        check_groups(st, [int(x) for x in res.split()[1:]])
    else:
        raise Violation("unknown operation")


def check_windows(st, order, size, method):
    """Converging window permutation ends when no window can be improved; the simple one ends with the best order of its last window"""
    w = min(2 + (method - 8) % 3, st.n)
    for x in range(st.n - w + 1) if method >= 11 else [st.n - w]:
        for p in itertools.permutations(order[x:x + w]):
            o = order[:x] + list(p) + order[x + w:]
            m = nodes(st, st.B, o)
            need(m >= size, "window reordering reaches %d nodes with the order %s, but its window of %d variables from position %d on has an "
                 "order with %d nodes: %s" % (size, order, w, x, m, o))


def check_groups(st, order):
    pos = {v: i for i, v in enumerate(order)}
    for g, fixed in st.groups:
        p = [pos[v] for v in g]
        need(max(p) - min(p) == len(g) - 1, "the variables %s are a group, but the order is %s" % (g, order))
        inner = [h for h, _ in st.groups if len(h) < len(g) and set(h) <= set(g)]
        if fixed and not inner:
            need(p == sorted(p), "the order of the variables %s is fixed, but the order is now %s" % (g, order))


def group_order(tc, n, groups):
    """a random order in which all groups stay together"""
    def rec(lo, k, gs):
        top = [g for g in gs if not any(h != g and h[0] <= g[0] and g[0] + g[1] <= h[0] + h[1] for h in gs)]
        items, x = [], lo
        for a, m in sorted(map(tuple, top)):
            items += [[v] for v in range(x, a)]
            items.append(rec(a, m, [g for g in gs if list(g) != [a, m] and a <= g[0] and g[0] + g[1] <= a + m]))
            x = a + m
        items += [[v] for v in range(x, lo + k)]
        return sum(tc.shuffle(items), [])
    return rec(0, n, [list(g) for g in groups])


def gen_program(tc, names):
    p = dd.Program()
    n = p.n = tc.weighted([(4, 4), (3, 3), (2, 2), (4, 5), (5, 6), (3, 7)])
    p.nz = 0
    p.slots = tc.weighted([(3, 256), (3, 2), (3, 16)])
    p.cache = tc.weighted([(3, 262144), (3, 8), (3, 64)])
    p.regs = 6
    p.lines = []
    hexw = 16 * max(1, (1 << n) // 64)
    # the variables that are used at all
    used = tc.shuffle(list(range(n)))[:tc.weighted([(4, n), (1, max(1, n - 1)), (1, max(1, n - 2))])]

    def tt(r):
        t = dd.gen_tt(tc, n)
        if len(used) < n:
            s = dd.State(n, 0, 0)
            for v in range(n):
                if v not in used:
                    t = s.c0(t, v)
        return ["tt", r, "%0*x" % (hexw, t)]
    for r in range(tc.int(1, 3)):
        p.lines.append(tt(r))
    grouped = tc.bool(0.45)
    if grouped:
        # a laminar family of intervals
        def part(lo, hi, depth):
            if hi - lo < 2 or depth > 2:
                return
            k = tc.int(1, 3)
            cuts = sorted(set(tc.int(lo, hi) for _ in range(k)) | {lo, hi})
            for a, b in zip(cuts, cuts[1:]):
                if b - a >= 2 and b - a < hi - lo and tc.bool(0.8):
                    p.lines.append(["m_group", a, b - a, 1 if tc.bool(0.25) else 0])
                    part(a, b, depth + 1)
        part(0, n, 0)
    grouped = any(l[0] == "m_group" for l in p.lines)
    if tc.bool(0.3):
        p.lines += [["m_auto", tc.pick(METHODS), tc.int(1, 60)]]

    def one(tc):
        k = tc.choice(10)
        if k < 4:
            p.lines.append(["m_reorder2", tc.weighted([(4, 4), (4, 21), (1, 2), (1, 3), (2, 5), (2, 6), (2, 7), (1, 8), (2, 9), (2, 10), (1, 11), (2, 12), (2, 13),
                                                       (3, 14), (3, 15), (1, 16), (1, 17)])])
        elif k == 4 and grouped and tc.bool(0.6):
            lo = tc.choice(n)
            # a group must not reach beyond the last variable: CUDD would wait for further variables
            p.lines.append(["m_lgroup", lo, tc.int(2, max(2, n // 2)), 1 if tc.bool(0.2) else 0])
        elif k == 4:
            p.lines.append(["m_groups"])
        elif k == 5:
            p.lines.append(tt(tc.choice(6)))
        elif k == 6:
            p.lines.extend(dd.gen_line(tc, n, 6, tc.pick(["m_gc", "m_next", "m_growth", "m_debug", "m_all", "m_cache", "m_gcoff"])))
        elif k == 7 and not grouped:
            p.lines.extend(dd.gen_line(tc, n, 6, "m_shuffle"))
        elif k == 7 and tc.bool(0.2):
            p.lines.append(["m_treefree"])
        elif k == 7:
            p.lines.append(["m_gshuffle", n] + (group_order(tc, n, [l[1:3] for l in p.lines if l[0] == "m_group"]) if tc.bool(0.8) else tc.shuffle(list(range(n)))))
        else:
            p.lines.extend(dd.gen_line(tc, n, 6, tc.pick(names)))
    tc.list(one, 1, 20, 0.9)
    return p
