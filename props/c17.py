"""C17: the interleaving analysis finds a maximal set of outputs that can be set before the input is read."""
import numpy as np
from vlib import pbt, gr1, slugs
from vlib.pbt import Violation


class EarlyGame(gr1.Game):
    """outputs in `early` are chosen before the next input is known"""

    def __init__(self, spec, early):
        super().__init__(spec)
        no = spec.no
        # axis of output bit j after reshaping O to [2]*no (most significant bit first)
        self.late = [no - 1 - j for j, n in enumerate(spec.outputs) if n not in early]
        self.early = [no - 1 - j for j, n in enumerate(spec.outputs) if n in early]

    def cox(self, F):
        a = (F & self.T) | ~self.E[:, :, None]
        a = a.reshape([self.S, self.I] + [2] * self.spec.no)
        # exists early, forall input, exists late
        a = a.any(axis=tuple(2 + x for x in self.late), keepdims=True)
        a = a.all(axis=1, keepdims=True)
        a = a.any(axis=tuple(2 + x for x in self.early), keepdims=True)
        return a.reshape(self.S)


class P(pbt.Prop):
    id = "C17"
    variants = ["slugs"]
    quick_cases = 24000
    thorough_cases = 400000
    rule = ("random specifications with --analyzeInterleaving; the listed outputs are checked in a reference game in which they are "
            "chosen before the next input: it must be realizable, and unrealizable with any further output; non-trivial: some "
            "but not all outputs are listed, or none although there are at least two")
    assumptions = []

    def gen(self, tc):
        sp = gr1.gen_spec(tc, max_in=2 if tc.bool(0.7) else 3, max_out=2 if tc.bool(0.5) else 3)
        if tc.bool(0.5) and sp.inputs and sp.outputs:
            # reactions to the next input
            for _ in range(tc.int(1, 2)):
                sp.SYS_TRANS = sp.SYS_TRANS[:tc.choice(len(sp.SYS_TRANS) + 1)]
                f = ("^", gr1.V(tc.pick(sp.inputs), True), gr1.V(tc.pick(sp.outputs), True))
                if tc.bool(0.6):
                    f = ("|", gr1.gen_clause(tc, [(n, False) for n in sp.inputs + sp.outputs], 1, 2), f)
                sp.SYS_TRANS.append(f)
        return sp

    def render(self, case):
        return case.text()

    def check(self, sp, ctx):
        f = slugs.write(ctx, "s.slugsin", sp.text())
        out = slugs.run(ctx, ["--analyzeInterleaving", f]).out
        if not gr1.Game(sp).realizable():
            if out != "Starting point is an unrealizable specification --> no analysis to be performed.\n":
                raise Violation("the specification is unrealizable, slugs prints %r" % out)
            return {"key": None, "nontrivial": False, "labels": ["unrealizable"]}
        h = "Starting point is a realizable specification.\n\n"
        y = h + "The specification stays realizable when the values of the following output signals have to be set before reading the input:\n"
        n = h + "The specification becomes unrealizable when some output variable has to be set before the inputs are present.\n"
        if out.startswith(y):
            lines = out[len(y):].splitlines()
            if not lines or any(not l.startswith("- ") for l in lines):
                raise Violation("unexpected output %r" % out)
            early = [l[2:] for l in lines]
        elif out == n:
            early = []
        else:
            raise Violation("unexpected output %r" % out)
        if len(set(early)) != len(early) or not set(early) <= set(sp.outputs):
            raise Violation("the list is %r" % early)
        if not EarlyGame(sp, early).realizable():
            raise Violation("the specification is unrealizable when %r are set before reading the input" % early)
        for o in sp.outputs:
            if o not in early and EarlyGame(sp, early + [o]).realizable():
                raise Violation("the specification stays realizable when %s is set before reading the input, too; listed: %r" % (o, early))
        nt = (0 < len(early) < sp.no) or (not early and sp.no > 1)
        return {"key": sp.text() if nt else None, "nontrivial": nt, "labels": ["%d early" % len(early)]}


PROP = P()
