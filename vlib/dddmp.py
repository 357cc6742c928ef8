"""Reading a text-mode DDDMP file (one root) as a truth table."""
import re
import numpy as np
from .pbt import Violation


def parse(text):
    """returns (header comment lines, fields, nodes, root)"""
    lines = text.split("\n")
    header = [l for l in lines if l.startswith("#")]
    body = [l for l in lines if l and not l.startswith("#")]
    fields, nodes = {}, {}
    i = 0
    while i < len(body) and body[i] != ".nodes":
        p = body[i].split()
        fields[p[0]] = p[1:]
        i += 1
    i += 1
    while i < len(body) and body[i] != ".end":
        nid, info, pos, t, e = body[i].split()
        if int(nid) in nodes:
            raise Violation("DDDMP file: node %s defined twice" % nid)
        nodes[int(nid)] = (info, int(pos), int(t), int(e))
        i += 1
    if i >= len(body):
        raise Violation("DDDMP file: no .end")
    if len(nodes) != int(fields[".nnodes"][0]):
        raise Violation("DDDMP file: .nnodes does not match the node list")
    return header, fields, nodes, int(fields[".rootids"][0])


def table(text, order):
    """Truth table over the variable *numbers* in `order` (order[0] is the least significant index bit). The meaning of the
    variable numbers is up to the caller."""
    header, fields, nodes, root = parse(text)
    pos = {v: b for b, v in enumerate(order)}
    n = 1 << len(order)
    grid = np.arange(n)
    aux = [int(x) for x in fields[".auxids"]]
    ids = [int(x) for x in fields[".ids"]]
    val = {}
    one = np.ones(n, dtype=bool)
    for nid in sorted(nodes):
        info, p, t, e = nodes[nid]
        if info == "T":
            val[nid] = one
            continue
        v = int(info)
        if v not in aux and v not in ids:
            raise Violation("DDDMP file: node %d refers to unknown variable %d" % (nid, v))
        if v not in pos:
            raise Violation("DDDMP file: variable number %d does not occur in the list of variable names" % v)
        b = (grid >> pos[v] & 1).astype(bool)
        tv = val[abs(t)] if t > 0 else ~val[abs(t)]
        ev = val[abs(e)] if e > 0 else ~val[abs(e)]
        val[nid] = np.where(b, tv, ev)
    r = val[abs(root)]
    return r if root > 0 else ~r


def strategy_names(header):
    """number -> name and the number of goals, from the comment header that slugs writes"""
    goals = [int(m.group(1)) for l in header for m in [re.match(r"^# Num goals: (\d+)$", l)] if m]
    names = {}
    on = False
    for l in header:
        if l == "# Variable names:":
            on = True
            continue
        m = re.match(r"^#\t(\d+): (.*)$", l)
        if on and m:
            if int(m.group(1)) in names:
                raise Violation("variable number %s is listed twice in the header" % m.group(1))
            names[int(m.group(1))] = m.group(2)
        elif on and not m:
            on = False
    if len(goals) != 1 or not names:
        raise Violation("the header of the symbolic strategy lacks the number of goals or the variable names")
    return goals[0], names


def write(tab, nvars, comment="# a BDD\n"):
    """Text of a DDDMP file for a truth table over nvars variables; variable number v is bit v of the table index."""
    tab = tuple(bool(x) for x in tab)
    assert len(tab) == 1 << nvars
    nodes, ids = [], {}

    def build(t, v):
        """t: table over variables v..nvars-1 (bit 0 = variable v); returns a signed node number"""
        if all(t):
            return 1
        if not any(t):
            return -1
        e, th = build(t[0::2], v + 1), build(t[1::2], v + 1)
        if e == th:
            return e
        neg = th < 0
        if neg:
            e, th = -e, -th
        if (v, th, e) not in ids:
            ids[v, th, e] = len(nodes) + 2
            nodes.append((v, th, e))
        r = ids[v, th, e]
        return -r if neg else r
    root = build(tab, 0)
    sup = sorted({v for v, _, _ in nodes})
    o = comment + ".ver DDDMP-2.0\n.mode A\n.varinfo 0\n.nnodes %d\n.nvars %d\n.nsuppvars %d\n" % (len(nodes) + 1, nvars, len(sup))
    s = " ".join(map(str, sup))
    o += ".ids %s\n.permids %s\n.auxids %s\n.nroots 1\n.rootids %d\n.nodes\n1 T 1 0 0\n" % (s, s, s, root)
    for i, (v, th, e) in enumerate(nodes):
        o += "%d %d %d %d %d\n" % (i + 2, v, sup.index(v), th, e)
    return o + ".end\n"
