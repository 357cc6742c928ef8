"""C18: fast-slow semantics: fast outputs change before slow ones, and the intermediate position has to be a safe one, too."""
import numpy as np
from vlib import pbt, gr1, slugs, explicit
from vlib.pbt import Violation


def fastslow_game(sp, slow):
    """The GR(1) game in which every transition (s, i, o) also needs a permitted intermediate position with the new inputs,
    the new values of fast outputs and the old values of the slow outputs."""
    g = gr1.Game(sp)
    m = sum(1 << b for b, n in enumerate(sp.outputs) if n in slow)
    ok = g.T.any(axis=(1, 2)) & g.T.any(axis=0).reshape(g.S)
    s = np.arange(g.S).reshape(-1, 1, 1)
    i = np.arange(g.I).reshape(1, -1, 1)
    o = np.arange(g.O).reshape(1, 1, -1)
    mid = (i << sp.no) | (o & ~m) | (s & m)
    g.T = g.T & ok[mid]
    return g


class P(pbt.Prop):
    id = "C18"
    variants = ["slugs"]
    quick_cases = 20000
    thorough_cases = 400000
    rule = ("random specifications in the fast-slow input format (--IROSfastslow); verdict and explicit strategies (with and without "
            "recovery) are checked against the game in which intermediate positions must be safe; non-trivial: slow and fast "
            "outputs both exist and the intermediate positions exclude at least one transition")
    assumptions = ["an intermediate position is safe if it can occur before and after a transition allowed by the safety guarantees"]

    def gen(self, tc):
        sp = gr1.gen_spec(tc)
        slow = [n for n in sp.outputs if tc.bool(0.5)]
        mode = tc.pick([["--explicitStrategy"], [], ["--explicitStrategy", "--simpleRecovery"], ["--explicitStrategy", "--jsonOutput"]])
        return sp, slow, mode + (["--sysInitRoboticsSemantics"] if tc.bool(0.35) else [])

    def render(self, case):
        return " ".join(case[2]) + "\n" + case[0].text(case[1])

    def check(self, case, ctx):
        sp, slow, mode = case
        g = fastslow_game(sp, slow)
        w = g.winning()
        exp = g.realizable_robotics(w) if "--sysInitRoboticsSemantics" in mode else g.realizable(w)
        f = slugs.write(ctx, "s.slugsin", sp.text(slow))
        r = slugs.run(ctx, ["--IROSfastslow"] + mode + [f])
        if r.verdict != exp:
            raise Violation("the verdict is %s, the fast-slow game says %s" % (r.verdict, exp))
        if exp and "--explicitStrategy" in mode:
            st = explicit.parse(r.out, "--jsonOutput" in mode)
            rec = "--simpleRecovery" in mode
            explicit.structure(sp, g, st, w & g.initSys & (g.initEnv | rec), rec)
        elif r.out.strip():
            raise Violation("unexpected output on stdout")
        std = gr1.Game(sp)
        differ = bool((std.T != g.T).any())
        nt = differ and 0 < len(slow) < sp.no
        labels = ["realizable" if exp else "unrealizable"]
        if exp != (std.realizable_robotics() if "--sysInitRoboticsSemantics" in mode else std.realizable()):
            labels.append("verdict differs from the standard semantics")
        return {"key": (sp.text(slow), tuple(mode)), "nontrivial": nt, "labels": labels}


PROP = P()
