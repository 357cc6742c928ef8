"""C09: two-dimensional cost: strategies still satisfy the specification, start wherever they have to, and - without liveness
assumptions to wait for - reach each goal with minimal worst-case cost."""
import numpy as np
from vlib import pbt, gr1, slugs, explicit, strat as S
from vlib.pbt import Violation
from props.c03 import gen_cost, cost_text

EXTRA = ("_l_a_c_v_", "_is_infty_cost_")




_V = gr1.V
KNOWN = [
    # (tag, specification, cost text)
    ("2d-assumption-cycle", gr1.Spec(["a"], ["x"], ENV_LIVENESS=[("1",), ("|", _V("a"), ("!", _V("x", True)))],
                                     SYS_LIVENESS=[_V("a", True)]), "0 1 <\n"),
    ("2d-assumption-start", gr1.Spec(["a", "b"], ["x", "y"], ENV_INIT=[_V("b")],
                                     ENV_LIVENESS=[_V("a"), ("!", ("|", ("!", _V("b")), ("|", _V("a"), _V("b", True))))],
                                     SYS_LIVENESS=[("!", ("|", _V("b"), ("|", ("!", _V("b", True)), _V("b"))))]), "0 1 <\n"),
]


def start_check(sp, g, st, rob):
    """the states without predecessors needed for every admissible first step are there"""
    idx = {n: S.state_index(sp, st.variables, v[0], EXTRA) for n, v in st.nodes.items()}
    have = np.zeros(g.S, dtype=bool)
    for n, (vals, rank, succ) in st.nodes.items():
        if rank == 0:
            have[idx[n]] = True
    if rob:
        miss = g.initEnv & g.initSys & ~have
        if miss.any():
            raise Violation("no state of the strategy for goal 0 has the initial position <%s>" % sp.state_str(int(np.argmax(miss))))
    else:
        env = g.initEnv.reshape(g.I, g.O)[:, 0]
        ok = (have & g.initSys).reshape(g.I, g.O).any(axis=1)
        if (env & ~ok).any():
            raise Violation("no initial state for initial input %d" % int(np.argmax(env & ~ok)))
    return idx


def transition_costs(sp, g, cost):
    """cost of every transition (0 where no line of the cost file applies)"""
    c = np.zeros((g.S, g.I, g.O))
    for v, f in cost[1]:
        c[sp.arr(f)] = v
    return c


def optimal(g, c, goal, win):
    """min-max cost until a goal transition has been taken, from every state (inf: cannot be enforced)"""
    tgt = win.reshape(1, g.I, g.O)
    best = np.full(g.S, np.inf)
    while True:
        nxt = best.reshape(1, g.I, g.O)
        step = np.minimum(np.where(goal & tgt, c, np.inf), c + np.broadcast_to(nxt, c.shape))
        step = np.where(g.T, step, np.inf).min(axis=2)          # (S, I)
        new = np.where(g.E, step, 0.0).max(axis=1)
        if (new == best).all():
            return best
        best = np.minimum(best, new)


def worst_case(st, idx, g, c, goal, j, n_nodes):
    """worst-case cost of the strategy until goal j is reached, for all nodes with rank j"""
    val = {n: np.inf for n, v in st.nodes.items() if v[1] == j}
    change = True
    while change:
        change = False
        for n in val:
            s = idx[n]
            w = 0.0
            for t in st.nodes[n][2]:
                i, o = idx[t] // g.O, idx[t] % g.O
                k = c[s, i, o]
                w = max(w, k if goal[s, i, o] else k + val.get(t, np.inf))
            if w < val[n]:
                val[n] = w
                change = True
    return val


class P(pbt.Prop):
    id = "C09"
    variants = ["slugs"]
    quick_cases = 24000
    thorough_cases = 300000
    rule = ("random specifications and cost files (disjoint cost classes, several weightings) for --twoDimensionalCost "
            "--explicitStrategy with both initialization semantics: the verdict equals that of the reference game; without liveness "
            "assumptions a start state exists for everything the environment may do first, every play of the strategy wins, and "
            "its worst-case cost until the next goal equals the min-max optimum of an independent value iteration; with liveness "
            "assumptions only the safety of moves is checked; non-trivial: a strategy with at least 3 states")
    assumptions = ["with liveness assumptions the strategies that slugs computes are not always winning (known finding); start states, "
                   "completeness "
                   "and liveness are therefore only checked without them"]

    def gen(self, tc):
        noass = tc.bool(0.75)
        sp = gr1.gen_spec(tc, max_in=2, max_out=3 if noass else 2, max_live=2, env_live=not noass)
        mode = (["--sysInitRoboticsSemantics"] if tc.bool(0.35) else []) + (["--simpleRecovery"] if tc.bool(0.2) else [])
        return sp, mode, gen_cost(tc, sp)

    def render(self, case):
        sp, mode, cost = case
        return " ".join(mode) + "\n" + sp.text() + "\n-- cost file:\n" + cost_text(cost)

    def check(self, case, ctx):
        sp, mode, cost = case
        g = gr1.Game(sp)
        w = g.winning()
        rob = "--sysInitRoboticsSemantics" in mode
        rec = "--simpleRecovery" in mode
        exp = g.realizable_robotics() if rob else g.realizable()
        f = slugs.write(ctx, "s.slugsin", sp.text())
        c = slugs.write(ctx, "s.cost", cost_text(cost))
        r = slugs.run(ctx, ["--explicitStrategy", "--twoDimensionalCost"] + mode + [f, c])
        if r.verdict != exp:
            raise Violation("the verdict is %s, the game says %s" % (r.verdict, exp))
        if not exp:
            if r.out.strip():
                raise Violation("a strategy is printed for an unrealizable specification")
            return {"key": sp.text(), "nontrivial": False, "labels": ["unrealizable"]}
        st = slugs.parse_text_strategy(r.out)
        if sp.ENV_LIVENESS:
            idx = {n: S.state_index(sp, st.variables, v[0], EXTRA) for n, v in st.nodes.items()}
        else:
            idx = start_check(sp, g, st, rob)
        labels = ["realizable", "recovery" if rec else "plain"]
        if sp.ENV_LIVENESS:
            labels.append("with assumptions")
            if not rec:
                for n, (vals, rank, succ) in st.nodes.items():
                    for t in succ:
                        i, o = idx[t] // g.O, idx[t] % g.O
                        if not (g.T[idx[n], i, o] and g.E[idx[n], i]):
                            raise Violation("transition %d -> %d is not allowed" % (n, t))
        else:
            S.check_strategy(sp, g, st, rec, extra=EXTRA)
            if not rec and cost[0].split()[1] != "0":
                tc = transition_costs(sp, g, cost)
                for j, goal in enumerate(g.G):
                    val = worst_case(st, idx, g, tc, goal, j, len(st.nodes))
                    opt = optimal(g, tc, goal, w)
                    for n, v in val.items():
                        if not abs(v - opt[idx[n]]) < 1e-6:
                            raise Violation("from state %d <%s> the strategy reaches goal %d with worst-case cost %s, possible is %s"
                                            % (n, sp.state_str(idx[n]), j, v, opt[idx[n]]))
                    if any(v > 0 for v in val.values()):
                        labels.append("positive cost")
        return {"key": sp.text() + cost_text(cost), "nontrivial": len(st.nodes) > 2, "labels": labels}

    def known_findings(self, ctx):
        for tag, sp, ctext in KNOWN:
            f = slugs.write(ctx, "k.slugsin", sp.text())
            c = slugs.write(ctx, "k.cost", ctext)
            r = slugs.run(ctx, ["--explicitStrategy", "--twoDimensionalCost", f, c])
            try:
                g = gr1.Game(sp)
                st = slugs.parse_text_strategy(r.out)
                start_check(sp, g, st, False)
                S.check_strategy(sp, g, st, extra=EXTRA)
                yield tag, False
            except Violation:
                yield tag, True


PROP = P()
