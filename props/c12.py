"""C12: the exported CNF/DNF form describes the same specification."""
import numpy as np
from vlib import pbt, gr1, slugs, cnf
from vlib.pbt import Violation


class P(pbt.Prop):
    id = "C12"
    variants = ["slugs"]
    quick_cases = 24000
    thorough_cases = 500000
    rule = ("random specifications with --computeCNFFormOfTheSpecification: variable list, clause sets of safety assumptions, safety "
            "guarantees and initial conditions are compared as truth tables with the specification, each liveness formula is "
            "compared as a recurrence language (cycle analysis over all valuations); a specification rebuilt from the clauses has "
            "the same verdict; non-trivial: at least 3 clauses and a liveness formula that is not constant")
    assumptions = ["liveness formulas are compared up to 'infinitely often', because the export may shift formulas over next values"]

    def gen(self, tc):
        return gr1.gen_spec(tc, max_in=2 if tc.bool(0.7) else 3, max_out=2, max_live=3)

    def render(self, case):
        return case.text()

    def check(self, sp, ctx):
        f = slugs.write(ctx, "s.slugsin", sp.text())
        c = cnf.parse(slugs.run(ctx, ["--computeCNFFormOfTheSpecification", f]).out)
        if c.inputs != sp.inputs or c.outputs != sp.outputs:
            raise Violation("the variables are %r / %r" % (c.inputs, c.outputs))
        if set(c.num.values()) != {(n, q) for n in sp.inputs + sp.outputs for q in (False, True)}:
            raise Violation("variable numbers %r" % c.num)
        new = gr1.Spec(sp.inputs, sp.outputs)

        def clause(cl):
            r = ("0",)
            for l in cl:
                r = ("|", cnf.lit(sp, c, l), r)
            return r
        ncl = 0
        for part, secs in (("SafetyGuarantee", ["SYS_TRANS"]), ("SafetyAssumption", ["ENV_TRANS"]), ("Init", ["ENV_INIT", "SYS_INIT"])):
            ref = np.ones((1 << sp.k, 1 << sp.ni, 1 << sp.no), dtype=bool)
            for s in secs:
                ref &= sp.conj(getattr(sp, s))
            got = cnf.conj_table(sp, c, c.clauses[part])
            if not (got == ref).all():
                raise Violation("the clauses of %s do not describe the specification" % part)
            setattr(new, secs[-1], [clause(cl) for cl in c.clauses[part]])
            ncl += len(c.clauses[part])
        interesting = False
        for part, s in (("LivenessGuarantee", "SYS_LIVENESS"), ("LivenessAssumption", "ENV_LIVENESS")):
            fs = getattr(sp, s) or [("1",)]
            if len(c.live[part]) != len(fs):
                raise Violation("%d liveness formulas, expected %d" % (len(c.live[part]), len(fs)))
            out = []
            for k, g in enumerate(fs):
                a, b = sp.arr(g), cnf.dnf_table(sp, c, c.live[part][k])
                if a.any() and not a.all():
                    interesting = True
                if not (cnf.gf_implies(a, b) and cnf.gf_implies(b, a)):
                    raise Violation("liveness formula %d of %s is exported as something else" % (k, s))
                r = ("0",)
                for cu in c.live[part][k]:
                    t = ("1",)
                    for l in cu:
                        t = ("&", cnf.lit(sp, c, l), t)
                    r = ("|", t, r)
                out.append(r)
            setattr(new, s, out)
        rob = ["--sysInitRoboticsSemantics"]
        if slugs.run(ctx, rob + [f]).verdict != slugs.run(ctx, rob + [slugs.write(ctx, "n.slugsin", new.text())]).verdict:
            raise Violation("the specification rebuilt from the clauses has a different verdict")
        return {"key": sp.text(), "nontrivial": ncl >= 3 and interesting, "labels": ["clauses>=3" if ncl >= 3 else "few clauses"]}


PROP = P()
