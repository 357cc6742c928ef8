"""C13: computed weakened safety assumptions are weaker, sufficient and mention no superfluous proposition."""
import numpy as np
from vlib import pbt, gr1, slugs
from vlib.pbt import Violation


class P(pbt.Prop):
    id = "C13"
    variants = ["slugs"]
    quick_cases = 20000
    thorough_cases = 400000
    rule = ("random specifications with safety assumptions, --computeWeakenedSafetyAssumptions; the printed clauses must follow from "
            "the original assumptions, the specification with the printed clauses must be realizable in the reference game if the "
            "original one is, but not with any clause less, no proposition in them may be abstracted away without losing realizability, and no literal may be left "
            "out without changing the conjunction; for unrealizable specifications the clauses must be equivalent to the original "
            "assumptions; non-trivial: the specification is realizable and clauses are printed")
    assumptions = []

    def gen(self, tc):
        sp = gr1.gen_spec(tc, min_in=1, max_in=2 if tc.bool(0.6) else 3, max_out=2 if tc.bool(0.6) else 3)
        at = [(n, False) for n in sp.inputs + sp.outputs] + [(n, True) for n in sp.inputs] * 2
        sp.ENV_TRANS += tc.list(lambda t: gr1.gen_clause(t, at, 2, 4) if t.bool(0.7) else gr1.gen_constraint(t, at), 1, 4, 0.7)
        return sp

    def render(self, case):
        return case.text()

    def literals(self, sp, clauses, g):
        """no literal can be left out without changing the conjunction of the clauses"""
        shape = [2] * sp.k + [2] * sp.ni

        def val(c):
            r = np.zeros([1] * len(shape), dtype=bool)
            for n, q, pos in c:
                ax = (sp.ni - 1 - sp.inputs.index(n)) if n in sp.inputs else sp.k - 1 - sp.outputs.index(n)
                if q:
                    ax += sp.k
                r = r | np.array([not pos, pos]).reshape([2 if i == ax else 1 for i in range(len(shape))])
            return r
        vals = [val(c) for c in clauses]

        def conj(vs):
            r = np.ones(shape, dtype=bool)
            for v in vs:
                r = r & v
            return r
        whole = conj(vals)
        if (whole.reshape(g.E.shape) != g.E).any():
            raise pbt.Inconclusive("clauses read wrongly")
        for i, c in enumerate(clauses):
            others = conj(vals[:i] + vals[i + 1:])
            for j in range(len(c)):
                if ((others & val(c[:j] + c[j + 1:])) == whole).all():
                    raise Violation("the literal %s%s of clause %s is redundant" % ("" if c[j][2] else "!", c[j][0] + ("'" if c[j][1] else ""), c))

    def check(self, sp, ctx):
        f = slugs.write(ctx, "s.slugsin", sp.text())
        r = slugs.run(ctx, ["--computeWeakenedSafetyAssumptions", f])
        lines = r.out.splitlines()
        if not lines or lines[0] != "# Simplified safety assumption CNF clauses:" or lines[-1] != "# End of list":
            raise Violation("unexpected output %r" % r.out[-300:])
        clauses, lits = [], []
        for l in lines[1:-1]:
            t, cl = ("0",), []
            for lit in l.split():
                n = lit.lstrip("!")
                q = n.endswith("'")
                n = n[:-1] if q else n
                if n not in sp.inputs + sp.outputs or (q and n in sp.outputs) or lit.count("!") > 1:
                    raise Violation("unexpected literal %r" % lit)
                v = gr1.V(n, q)
                t = ("|", ("!", v) if lit[0] == "!" else v, t)
                cl.append((n, q, lit[0] != "!"))
            lits.append(cl)
            clauses.append(t)
        orig = gr1.Game(sp)
        real = orig.realizable()

        def game(cls):
            s = sp.copy()
            s.ENV_TRANS = cls
            return gr1.Game(s)
        g = game(clauses)
        self.literals(sp, lits, g)
        if (orig.E & ~g.E).any():
            s, i = map(int, np.argwhere(orig.E & ~g.E)[0])
            raise Violation("the original assumptions allow input %d after <%s>, the simplified ones do not" % (i, sp.state_str(s)))
        labels = ["realizable" if real else "unrealizable"]
        if not real:
            if (orig.E != g.E).any():
                raise Violation("for an unrealizable specification, the clauses are not equivalent to the assumptions")
            return {"key": None, "nontrivial": False, "labels": labels}
        if not g.realizable():
            raise Violation("the specification is not realizable with the simplified assumptions")
        used = sorted({v for t in clauses for v in gr1.atoms_of(t)})
        for n, q in used:
            e = g.E.reshape([2] * sp.k + [2] * sp.ni)
            ax = (sp.ni - 1 - sp.inputs.index(n)) if n in sp.inputs else sp.k - 1 - sp.outputs.index(n)
            if q:
                ax += sp.k
            h = gr1.Game(sp)
            h.E = np.broadcast_to(e.any(axis=ax, keepdims=True), e.shape).reshape(g.E.shape)
            if h.realizable():
                raise Violation("the clauses mention %s%s without need" % (n, "'" if q else ""))
        for i in range(len(clauses)):
            if game(clauses[:i] + clauses[i + 1:]).realizable():
                raise Violation("the clause %s can be left out" % (lits[i],))
        if clauses:
            labels.append("assumptions needed")
        return {"key": sp.text(), "nontrivial": bool(clauses), "labels": labels}


PROP = P()
