"""Reads the output of --computeCNFFormOfTheSpecification."""
import re
import numpy as np
from .pbt import Violation


class Cnf:
    pass


def parse(text):
    c = Cnf()
    c.inputs, c.outputs, c.num = [], [], {}
    c.clauses = {"SafetyGuarantee": [], "SafetyAssumption": [], "Init": []}
    c.live = {"LivenessGuarantee": [], "LivenessAssumption": []}
    for line in text.splitlines():
        m = re.fullmatch(r"(Input|Output): (.*) (\d+) (\d+)", line)
        if m:
            (c.inputs if m.group(1) == "Input" else c.outputs).append(m.group(2))
            for n, q in ((int(m.group(3)), False), (int(m.group(4)), True)):
                if n in c.num or n == 0:
                    raise Violation("variable number %d is used twice in the CNF output" % n)
                c.num[n] = (m.group(2), q)
            continue
        t, _, rest = line.partition(":")
        lits = [int(x) for x in rest.split()]
        groups, cur = [], []
        for l in lits:
            if l == 0:
                groups.append(cur)
                cur = []
            else:
                if abs(l) not in c.num:
                    raise Violation("unknown literal %d in CNF output" % l)
                cur.append(l)
        if cur:
            raise Violation("unterminated clause in the CNF output: %r" % line)
        if t in c.clauses:
            if len(groups) != 1:
                raise Violation("not one clause: %r" % line)
            c.clauses[t].append(groups[0])
        elif t in c.live:
            c.live[t].append(groups)
        else:
            raise Violation("unexpected line in the CNF output: %r" % line)
    return c


def lit(spec, c, l):
    from . import gr1
    n, q = c.num[abs(l)]
    f = gr1.V(n, q)
    return f if l > 0 else ("!", f)


def conj_table(spec, c, clauses):
    a = np.ones((1 << spec.k, 1 << spec.ni, 1 << spec.no), dtype=bool)
    cache = {}
    for cl in clauses:
        t = np.zeros_like(a)
        for l in cl:
            if l not in cache:
                cache[l] = spec.arr(lit(spec, c, l))
            t |= cache[l]
        a &= t
    return a


def dnf_table(spec, c, cubes):
    a = np.zeros((1 << spec.k, 1 << spec.ni, 1 << spec.no), dtype=bool)
    cache = {}
    for cu in cubes:
        t = np.ones_like(a)
        for l in cu:
            if l not in cache:
                cache[l] = spec.arr(lit(spec, c, l))
            t &= cache[l]
        a |= t
    return a


def gf_implies(a, b):
    """On all infinite words over the propositions: infinitely many a-transitions imply infinitely many b-transitions.
    Decided exactly: no cycle of not-b transitions contains an a-transition. a, b: (S, I, O) tables."""
    from .strat import sccs
    S = a.shape[0]
    A, N = a.reshape(S, S), ~b.reshape(S, S)
    bad = A & N
    if not bad.any():
        return True
    adj = {s: list(np.nonzero(N[s])[0]) for s in range(S)}
    comp = {}
    for i, cs in enumerate(sccs(adj)):
        for s in cs:
            comp[s] = i
    for s, t in zip(*np.nonzero(bad)):
        if comp[s] == comp[t]:
            return False
    return True
