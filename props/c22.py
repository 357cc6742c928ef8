"""C22: non-deterministic motion: the verdict is that of the game in which the environment resolves the robot's motion."""
import numpy as np
from vlib import pbt, gr1, slugs, dddmp
from vlib.pbt import Violation


class Case:
    pass


class MotionGame(gr1.Game):
    """spec.outputs = other + motion + controller; robot[m, c, m'] says which motions are possible"""

    def __init__(self, spec, nother, nmot, nctl, robot):
        super().__init__(spec)
        no = spec.no
        ax = {n: no - 1 - j for j, n in enumerate(spec.outputs)}
        self.other = [ax[n] for n in spec.outputs[:nother]]
        self.mot = [ax[n] for n in spec.outputs[nother:nother + nmot]]
        self.ctl = [ax[n] for n in spec.outputs[nother + nmot:]]
        # robot relation as (S, 1, O)
        o = np.arange(self.O)
        m2 = o >> nother & ((1 << nmot) - 1)
        c2 = o >> (nother + nmot)
        s = np.arange(self.S) & (self.O - 1)
        m1 = s >> nother & ((1 << nmot) - 1)
        self.R = robot[m1[:, None], c2[None, :], m2[None, :]][:, None, :]
        moved = (m1[:, None] != m2[None, :])[:, None, :]
        can = (self.split(self.R & moved).any(axis=self.axes(self.mot), keepdims=True))
        can = np.broadcast_to(can, [self.S, 1] + [2] * no).reshape(self.S, 1, self.O)
        self.A = [np.broadcast_to(a, self.T.shape) for a in self.A] if spec.ENV_LIVENESS else []
        self.A.append(np.broadcast_to(~can | moved, self.T.shape))

    def split(self, a):
        return a.reshape([a.shape[0], a.shape[1]] + [2] * self.spec.no)

    def axes(self, l):
        return tuple(2 + x for x in l)

    def cox(self, F):
        ok = self.split(~self.R | (F & self.T)).all(axis=self.axes(self.mot), keepdims=True)
        ok = ok & self.split(self.R).any(axis=self.axes(self.mot), keepdims=True)
        ok = ok.any(axis=self.axes(self.other + self.ctl), keepdims=True).reshape(self.S, self.I)
        return (ok | ~self.E).all(axis=1)


class P(pbt.Prop):
    id = "C22"
    variants = ["slugs"]
    quick_cases = 24000
    thorough_cases = 400000
    rule = ("random specifications with motion states, controller outputs and other outputs, a random robot abstraction written as a "
            "DDDMP file and named region BDDs; --nonDeterministicMotion with both initialization semantics; the verdict is compared "
            "with a reference game in which the environment picks the motion among those the abstraction allows; non-trivial: the "
            "winning region is neither empty nor everything, or the verdict differs between a deterministic and this abstraction")
    assumptions = ["assumptions over the next motion state or other outputs are not generated",
                   "initialization assumptions mention inputs only"]

    def gen(self, tc):
        c = Case()
        ni = tc.weighted([(3, 1), (2, 2), (1, 0)])
        c.other = ["o"] if tc.bool(0.3) else []
        c.mot = ["m0", "m1"][:tc.weighted([(3, 2), (2, 1)])]
        c.ctl = ["c0", "c1"][:tc.weighted([(3, 1), (2, 2)])]
        if len(c.other + c.mot + c.ctl) > 4:
            c.other = []
        ins = gr1.NAMES_IN[:ni]
        outs = c.other + c.mot + c.ctl
        sp = gr1.Spec(ins, outs)
        nm, nc = len(c.mot), len(c.ctl)
        c.robot = np.zeros((1 << nm, 1 << nc, 1 << nm), dtype=bool)
        dens = tc.pick([0.15, 0.3, 0.5])
        for m in range(1 << nm):
            for k in range(1 << nc):
                if not tc.bool(0.1):
                    c.robot[m, k, tc.choice(1 << nm)] = True
                    for x in range(1 << nm):
                        if tc.bool(dens):
                            c.robot[m, k, x] = True
        pre = [(n, False) for n in ins + c.other + c.mot]
        qi = [(n, True) for n in ins]
        post = [(n, True) for n in c.other + c.mot + c.mot + c.ctl]
        c.regions = {}
        for r in ["R1", "free"][:tc.weighted([(3, 0), (2, 1), (1, 2)])]:
            c.regions[r] = gr1.gen_formula(tc, [(n, False) for n in c.mot], 2)
        reg = [("r", n, False) for n in c.regions]
        self_reg = c.regions

        def clause(t, at, lo, hi, regs=()):
            n = t.int(lo, hi)
            f = None
            for _ in range(n):
                if regs and t.bool(0.3):
                    l = ("r", t.pick(list(self_reg)), t.bool(0.5) and regs == 2)
                    l = ("!", l) if t.bool(0.5) else l
                else:
                    l = gr1.gen_literal(t, at) if at else ("1",)
                f = l if f is None else ("|", l, f)
            return f
        rp = 1 if reg else 0
        r2 = 2 if reg else 0
        sp.ENV_INIT = tc.list(lambda t: gr1.gen_clause(t, [(n, False) for n in ins], 1, 2), 0, 2, 0.4)
        sp.SYS_INIT = tc.list(lambda t: clause(t, [(n, False) for n in ins + c.mot + c.mot + c.other], 1, 2, rp), 0, 2, 0.5)
        sp.ENV_TRANS = tc.list(lambda t: clause(t, pre + qi + qi, 1, 3, rp), 0, 2, 0.5) if ins else []
        sp.SYS_TRANS = tc.list(lambda t: clause(t, pre + post + post, 1, 4, r2), 0, 4, tc.pick([0.4, 0.7]))
        if tc.bool(0.3) and ins:
            sp.SYS_TRANS.append(clause(tc, pre + qi + post, 2, 4, r2))

        def goal(t, at, regs):
            f = clause(t, at, 1, 2, regs)
            return ("&", clause(t, at, 1, 1, regs), f) if t.bool(0.5) else f
        sp.ENV_LIVENESS = tc.list(lambda t: goal(t, pre + qi, rp), 0, 2, 0.4)
        sp.SYS_LIVENESS = tc.list(lambda t: goal(t, pre + post, r2), 0, 3, 0.8)
        c.sp = sp
        c.robotics = tc.bool(0.35)
        c.bad = tc.weighted([(30, None), (1, "vars"), (1, "text"), (1, "missing"), (1, "cut")])
        c.order = tc.shuffle(["other", "mot", "ctl"]) if tc.bool(0.5) else ["other", "mot", "ctl"]
        return c

    def text(self, c, dirname=""):
        sp = c.sp
        heads = {"other": "[OTHER OUTPUT]", "mot": "[MOTION STATE OUTPUT]", "ctl": "[MOTION CONTROLLER OUTPUT]"}
        o = ["[INPUT]"] + sp.inputs + [""]
        for k in c.order:
            o += [heads[k]] + getattr(c, k) + [""]
        if c.regions:
            o += ["[ABSTRACTION_REGION_BDDS]"] + ["%s %s%s.bdd" % (r, dirname, r) for r in c.regions] + [""]
        for s in gr1.SECTIONS:
            o += ["[%s]" % s] + [self.fstr(f) for f in getattr(sp, s)] + [""]
        return "\n".join(o)

    def fstr(self, f):
        if f[0] == "r":
            return f[1] + ("'" if f[2] else "")
        if f[0] == "!":
            return "! " + self.fstr(f[1])
        if f[0] in "&|^":
            return "%s %s %s" % (f[0], self.fstr(f[1]), self.fstr(f[2]))
        return gr1.to_slugs(f)

    def subst(self, f, regions, primed=None):
        if f[0] == "r":
            return self.subst(regions[f[1]], regions, f[2])
        if f[0] == "v":
            return ("v", f[1], f[2] if primed is None else primed)
        if f[0] == "!":
            return ("!", self.subst(f[1], regions, primed))
        if f[0] in "&|^":
            return (f[0], self.subst(f[1], regions, primed), self.subst(f[2], regions, primed))
        return f

    def render(self, c):
        o = "robotics semantics: %s, damage to the robot file: %s\n" % (c.robotics, c.bad) + self.text(c)
        for r, f in c.regions.items():
            o += "\nregion %s: %s" % (r, gr1.to_slugs(f))
        o += "\nrobot:" + "".join("\n m=%d c=%d -> %s" % (m, k, list(np.flatnonzero(c.robot[m, k])))
                                  for m in range(c.robot.shape[0]) for k in range(c.robot.shape[1]))
        return o

    def check(self, c, ctx):
        nm, nc = len(c.mot), len(c.ctl)

        def rev(x, n):
            return sum((x >> b & 1) << (n - 1 - b) for b in range(n))
        # file: motion state, controller, next motion state; the variables of each kind in reverse order of declaration
        tab = []
        for i in range(1 << (2 * nm + nc)):
            m, k, m2 = i & ((1 << nm) - 1), i >> nm & ((1 << nc) - 1), i >> (nm + nc)
            tab.append(bool(c.robot[rev(m, nm), rev(k, nc), rev(m2, nm)]))
        rf = slugs.write(ctx, "robot.bdd", dddmp.write(tab, 2 * nm + nc))
        if c.bad:
            return self.damaged(c, ctx, tab, 2 * nm + nc, rf)
        msp = gr1.Spec([], c.mot)
        for r, f in c.regions.items():
            t = msp.arr(f)[:, 0, 0]
            slugs.write(ctx, r + ".bdd", dddmp.write([t[rev(i, nm)] for i in range(1 << nm)], nm))
        sf = slugs.write(ctx, "s.slugsin", self.text(c, ctx.scratch + "/"))
        args = ["--nonDeterministicMotion"] + (["--sysInitRoboticsSemantics"] if c.robotics else [])
        v = slugs.run(ctx, args + [sf, rf]).verdict
        sp = c.sp.copy()
        for s in gr1.SECTIONS:
            setattr(sp, s, [self.subst(f, c.regions) for f in getattr(sp, s)])
        g = MotionGame(sp, len(c.other), nm, nc, c.robot)
        win = g.winning()
        if c.robotics:
            ref = bool((win | ~g.initEnv).all())
        else:
            ref = g.realizable()
        if v != ref:
            raise Violation("slugs says %s, the reference game is %s" % (v, ref))
        nt = bool(win.any() and not win.all())
        return {"key": self.render(c) if nt else None, "nontrivial": nt,
                "labels": ["realizable" if v else "unrealizable"] + (["regions"] if c.regions else []) + (["other outputs"] if c.other else [])}

    def damaged(self, c, ctx, tab, n, rf):
        if c.bad == "vars":
            # depends on a further variable
            slugs.write(ctx, "robot.bdd", dddmp.write([x ^ (i >> n & 1) for i, x in enumerate(tab + tab)], n + 1))
        elif c.bad == "text":
            slugs.write(ctx, "robot.bdd", self.text(c))
        elif c.bad == "missing":
            rf += ".missing"
        else:
            t = open(rf).read()
            slugs.write(ctx, "robot.bdd", t[:t.index("1 T 1 0 0")])
        c.regions = {}
        c.sp = gr1.Spec(c.sp.inputs, c.sp.outputs)
        sf = slugs.write(ctx, "s.slugsin", self.text(c))
        r = slugs.run(ctx, ["--nonDeterministicMotion", sf, rf], check_rc=False)
        if r.rc != 1 or "Error" not in r.err or "RESULT" in r.err:
            raise Violation("robot file damaged (%s): exit code %s, stderr %r" % (c.bad, r.rc, r.err[-300:]))
        return {"key": None, "nontrivial": False, "labels": ["damaged robot file"]}


PROP = P()
