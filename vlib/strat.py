"""Judging explicit strategies and counterstrategies against the reference game."""
import numpy as np
from .pbt import Violation


def state_index(spec, variables, vals, extra=()):
    """extra: prefixes of additional variables that a strategy may use as memory"""
    d = dict(zip(variables, vals))
    if extra:
        if len(d) != len(variables):
            raise Violation("strategy lists variables %r" % (variables,))
        d = {n: v for n, v in d.items() if not n.startswith(tuple(extra))}
        variables = list(d)
    if set(d) != set(spec.inputs + spec.outputs) or len(variables) != len(d):
        raise Violation("strategy lists variables %r, the specification has %r" % (variables, spec.inputs + spec.outputs))
    i = sum(d[n] << b for b, n in enumerate(spec.inputs))
    o = sum(d[n] << b for b, n in enumerate(spec.outputs))
    return i << spec.no | o


def sccs(adj):
    """Strongly connected components of {node: [succ]} (iterative Tarjan)."""
    index, low, onstack, stack, out, cnt = {}, {}, set(), [], [], [0]
    for root in adj:
        if root in index:
            continue
        work = [(root, iter(adj[root]))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        stack.append(root)
        onstack.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    stack.append(w)
                    onstack.add(w)
                    work.append((w, iter(adj[w])))
                    adv = True
                    break
                elif w in onstack:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == index[v]:
                comp = set()
                while True:
                    w = stack.pop()
                    onstack.discard(w)
                    comp.add(w)
                    if w == v:
                        break
                out.append(comp)
    return out


def fair_cycle(adj, edges, recur, never):
    """Is there a cycle whose edges satisfy every recur[i](edge) at least once and never[j](edge) for no edge?
    adj: {v: [w]}; edges are (v, w) pairs; recur: list of predicates; never: predicate or None.
    Returns a component or None."""
    a = {v: [w for w in ws if never is None or not never(v, w)] for v, ws in adj.items()}
    for comp in sccs(a):
        es = [(v, w) for v in comp for w in a[v] if w in comp]
        if not es:
            continue
        if all(any(r(v, w) for v, w in es) for r in recur):
            return comp
    return None


def check_strategy(spec, game, strat, recovery=False, extra=(), nranks=None):
    """Every play of the strategy is allowed and winning; the strategy answers every allowed input."""
    idx = {n: state_index(spec, strat.variables, v[0], extra) for n, v in strat.nodes.items()}
    adj = {}
    for n, (vals, rank, succ) in strat.nodes.items():
        s = idx[n]
        if not (0 <= rank < (nranks or len(game.G))):
            raise Violation("state %d has rank %d, but there are %d liveness guarantees" % (n, rank, nranks or len(game.G)))
        seen = {}
        for t in succ:
            if t not in idx:
                raise Violation("state %d has successor %d, which is not listed" % (n, t))
            i, o = idx[t] >> spec.no, idx[t] & (game.O - 1)
            if i in seen:
                raise Violation("state %d <%s> has two successors for the same next input" % (n, spec.state_str(s)))
            seen[i] = t
            if not game.T[s, i, o]:
                raise Violation("transition %d -> %d (<%s> -> <%s>) violates the safety guarantees" %
                                (n, t, spec.state_str(s), spec.state_str(idx[t])))
            if not recovery and not game.E[s, i]:
                raise Violation("transition %d -> %d is for an input that the safety assumptions exclude" % (n, t))
        for i in range(game.I):
            if game.E[s, i] and i not in seen:
                raise Violation("state %d <%s> has no successor for allowed next input %d" % (n, spec.state_str(s), i))
        adj[n] = list(succ)
    # Liveness: no reachable cycle on which all assumptions recur and some guarantee does not (transition-based)
    if recovery:
        # plays that violate a safety assumption infinitely often are not subject to the guarantee
        adj = {n: [t for t in succ if game.E[idx[n], idx[t] >> spec.no]] for n, succ in adj.items()}
    A = [(lambda v, w, a=a: bool(a[idx[v], idx[w] >> spec.no, idx[w] & (game.O - 1)])) for a in game.A]
    for j, g in enumerate(game.G):
        c = fair_cycle(adj, None, A, lambda v, w: bool(g[idx[v], idx[w] >> spec.no, idx[w] & (game.O - 1)]))
        if c is not None:
            raise Violation("a play through states %s satisfies all liveness assumptions but not liveness guarantee %d" %
                            (sorted(c)[:12], j))
    return idx


def reachable(strat, roots):
    seen = set(roots)
    todo = list(roots)
    while todo:
        n = todo.pop()
        for t in strat.nodes[n][2]:
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return seen
