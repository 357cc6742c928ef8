"""Whole-file requirements on printed explicit strategies."""
from .pbt import Violation
from . import strat as S, slugs


def parse(text, json_output):
    return slugs.parse_json_strategy(text) if json_output else slugs.parse_text_strategy(text)


def structure(spec, game, st, roots, recovery=False, rankcheck=True, nranks=None):
    """roots: bool array of the states the strategy has to start from (rank 0). Checks winningness, completeness, the
    initial states, absence of unreachable or duplicate entries and the meaning of the rank."""
    if not st.nodes:
        if roots.any():
            raise Violation("the strategy has no states although %d initial positions are allowed and winning" % roots.sum())
        return {}
    idx = S.check_strategy(spec, game, st, recovery, nranks=nranks)
    seen = {}
    for n in sorted(st.nodes):
        k = (idx[n], st.nodes[n][1])
        if k in seen:
            raise Violation("states %d and %d are the same position with the same rank" % (seen[k], n))
        seen[k] = n
    if sorted(st.nodes) != list(range(len(st.nodes))):
        raise Violation("state numbers are not 0..n-1")
    nroots = int(roots.sum())
    first = sorted(idx[n] for n in range(min(nroots, len(st.nodes))))
    want = [int(x) for x in roots.nonzero()[0]]
    if first != want:
        raise Violation("the strategy has to start in %s, but its first %d states are %s" % (
            [spec.state_str(x) for x in want], nroots, [spec.state_str(x) for x in first]))
    for n in range(nroots):
        if st.nodes[n][1] != 0:
            raise Violation("initial state %d has rank %d" % (n, st.nodes[n][1]))
    if len(S.reachable(st, range(nroots))) != len(st.nodes):
        raise Violation("the strategy lists unreachable states")
    if not rankcheck:
        return idx
    nG = len(game.G)
    for n, (_, rank, succ) in st.nodes.items():
        s = idx[n]
        for t in succ:
            i, o = idx[t] >> spec.no, idx[t] & (game.O - 1)
            r, target, steps = rank, st.nodes[t][1], 0
            while r != target:
                if not game.G[r][s, i, o]:
                    raise Violation("transition %d -> %d moves from rank %d to rank %d without satisfying guarantee %d" % (
                        n, t, rank, target, r))
                r = (r + 1) % nG
                steps += 1
    return idx
