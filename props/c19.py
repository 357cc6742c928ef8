"""C19: the interactive strategy shell: stateful, model-based test of its commands."""
import re
import numpy as np
from vlib import pbt, gr1, slugs, strat as S
from vlib.pbt import Violation

BASES = [[], [], ["--biasForAction"], ["--fixedPointRecycling"]]


class Case:
    pass


def goal_list(line, prefix):
    if not line.startswith(prefix):
        raise Violation("expected %r, got %r" % (prefix, line))
    t = line[len(prefix):].strip()
    return [] if t == "none" else [int(x) for x in t.split(", ")]


class P(pbt.Prop):
    id = "C19"
    variants = ["slugs"]
    quick_cases = 24000
    thorough_cases = 300000
    rule = ("random specifications (realizable and unrealizable, up to 3 propositions) with --interactiveStrategy; a session first "
            "queries all transitions with CHECKTRANS (giving the shell's strategies, which are checked to be complete and winning for "
            "the player who wins) and then runs 6 to 25 random commands (starts, moves, forced initial positions and transitions, "
            "malformed values) whose answers are compared with a model; non-trivial: at least 3 answered commands that give a "
            "position and a specification with some restriction")
    assumptions = ["the order of inputs and outputs in command strings is that of their declaration",
                   "which of several allowed answers the shell gives is not specified"]

    def gen(self, tc):
        c = Case()
        c.base = tc.pick(BASES)
        sp = c.sp = gr1.gen_spec(tc, max_in=2, max_out=2, max_live=3)
        if sp.k > 3:
            d = sp.inputs[-1] if tc.bool() else sp.outputs[-1]
            if d in sp.inputs:
                sp.inputs.remove(d)
            else:
                sp.outputs.remove(d)
            for s in gr1.SECTIONS:
                setattr(sp, s, [f for f in getattr(sp, s) if all(n != d for n, _ in gr1.atoms_of(f))])
        if tc.bool(0.25):
            # a goal that is a single transition
            full = [(n, p) for n in sp.inputs + sp.outputs for p in (False, True)]
            f = None
            for n, p in full:
                l = ("!", gr1.V(n, p)) if tc.bool() else gr1.V(n, p)
                f = l if f is None else ("&", f, l)
            if f is not None:
                getattr(sp, tc.pick(["ENV_LIVENESS", "SYS_LIVENESS"])).append(f)
        k, ni, no = sp.k, sp.ni, sp.no
        c.cmds = []
        bits = lambda n: [tc.choice(2) for _ in range(n)]
        odd = lambda v: tc.pick(["2", "7", "-1", "x", "."]) if tc.bool(0.03) else str(v)
        forced = lambda n, p: "".join("." if tc.bool(p) else str(tc.choice(2)) for _ in range(n))
        c.end = "QUIT"
        for _ in range(tc.int(6, 25)):
            x = tc.weighted([(8, "XMAKETRANS"), (2, "XMAKETRANSRANDOM"), (3, "XGETINIT"), (2, "STARTPOS"), (2, "SETPOS"), (4, "MOVE"),
                             (4, "XCOMPLETEINIT"), (8, "XSTRATEGYTRANSITION"), (1, "XPRINTINPUTS"), (1, "XPRINTOUTPUTS"),
                             (1, "XGETNOFLIVENESSPROPERTIES"), (1, "other")])
            if x in ("XMAKETRANS", "XMAKETRANSRANDOM"):
                c.cmds.append((x, "".join(map(str, bits(ni)))))
            elif x == "SETPOS":
                c.cmds.append((x, [odd(v) for v in bits(k)]))
            elif x == "MOVE":
                c.cmds.append((x, odd(tc.choice(4)), [odd(v) for v in bits(ni)]))
            elif x == "XCOMPLETEINIT":
                c.cmds.append((x, forced(k, tc.pick([0.9, 0.5, 0.1]))))
            elif x == "XSTRATEGYTRANSITION":
                c.cmds.append((x, "".join(map(str, bits(k))), forced(k, tc.pick([0.95, 0.8, 0.5, 0.1])),
                               tc.choice(max(1, len(sp.ENV_LIVENESS))), tc.choice(max(1, len(sp.SYS_LIVENESS)))))
            elif x == "other":
                c.cmds.append((tc.pick(["HELP", "XMAKE", "MOVE 1", "?"]),))
            else:
                c.cmds.append((x,))
        c.style = [tc.choice(4) for _ in c.cmds]
        c.fail = tc.bool(0.1)
        return c

    def render(self, c):
        return "%s\n%s\n# commands\n%s" % (" ".join(c.base + ["--interactiveStrategy"]), c.sp.text(),
                                          "\n".join(" ".join(str(x) for x in l) for l in c.cmds))

    def check(self, c, ctx):
        sp = c.sp
        g = gr1.Game(sp)
        k, ni, no = sp.k, sp.ni, sp.no
        w = g.winning()
        real = g.realizable(w)
        pw = w if real else ~w            # positions winning for the player who wins
        names = sp.inputs + sp.outputs
        nA, nG = len(g.A), len(g.G)
        ngoals = nG if real else nA
        # bits in shell order (inputs first, then outputs) <-> state index
        def sidx(b):
            return sum(v << j for j, v in enumerate(b[:ni])) << no | sum(v << j for j, v in enumerate(b[ni:]))
        bvec = {sidx(b): b for b in ([x >> j & 1 for j in range(k)] for x in range(1 << k))}
        script = []
        queries = [(s, t) for s in range(g.S) for t in range(g.S)]
        for s, t in queries:
            script.append("CHECKTRANS\n%s\n" % " ".join(map(str, bvec[s] + bvec[t])))
        cmds = list(c.cmds)
        for i, (cmd, style) in enumerate(zip(cmds, c.style)):
            name = cmd[0]
            name = [name, name.lower(), "  " + name + "\t", name][style]
            if cmd[0] in ("XMAKETRANS", "XMAKETRANSRANDOM"):
                if not real:
                    cmds[i] = ("XPRINTINPUTS",)
                    script.append("XPRINTINPUTS\n")
                    continue
                script.append("%s\n%s\n" % (name, cmd[1]))
            elif cmd[0] == "SETPOS":
                script.append("%s\n%s\n" % (name, "\n".join(cmd[1])))
            elif cmd[0] == "MOVE":
                script.append((name, cmd))
            else:
                script.append("\n".join([name] + [str(x) for x in cmd[1:]]) + "\n")
        # MOVE reads a number of values that depends on the state: model the session first
        # (positions after a strategy move are not known in advance, so its arguments are always preceded by SETPOS)
        out_script = []
        cmds2 = []
        ci = 0
        for x in script:
            if isinstance(x, tuple):
                name, cmd = x
                s = self.move_pos(cmd, k, c, len(cmds2))
                out_script.append("SETPOS\n%s\n" % " ".join(map(str, bvec[s])))
                cmds2.append(("SETPOS", [str(v) for v in bvec[s]]))
                reads = [] if not real else [cmd[1]]
                if real and self.num(cmd[1])[0] and 0 <= int(cmd[1]) < nG and g.E[s].any():
                    reads += cmd[2]
                out_script.append("%s\n%s\n" % (name, " ".join(reads)))
                cmds2.append(cmd)
            else:
                out_script.append(x)
                if len(out_script) > len(queries):
                    cmds2.append(cmds[ci])
            if len(out_script) > len(queries):
                ci += 1
        fail = c.fail and not real
        out_script.append("XMAKETRANS\n" if fail else c.end + "\n")
        f = slugs.write(ctx, "s.slugsin", sp.text())
        r = slugs.run(ctx, c.base + ["--interactiveStrategy", f], stdin="".join(out_script), check_rc=False)
        if r.verdict != real:
            raise Violation("the verdict is %s, the game says %s" % (r.verdict, real))
        if fail:
            if r.rc != 1 or "Error" not in r.err:
                raise Violation("XMAKETRANS for an unrealizable specification is not rejected (exit code %s)" % r.rc)
        elif r.rc != 0:
            raise Violation("the shell ended with %s: %r" % (r.rc, r.err[-300:]))
        chunks = re.split(r"(?<!-)> ", r.out)
        if chunks[0] != "" or len(chunks) != len(queries) + len(cmds2) + 2:
            raise Violation("%d answers to %d commands" % (len(chunks) - 2, len(queries) + len(cmds2)))
        chunks = chunks[1:]
        # ---- the strategies
        PS = np.zeros((ngoals, g.S, g.I, g.O), dtype=bool)
        for (s, t), txt in zip(queries, chunks):
            i, o = t >> no, t & (g.O - 1)
            l = txt.split("\n")
            pos = "".join(" - %s: " % n for n in names)
            posp = "".join(" - %s': " % n for n in names)
            exp = ["From: ", pos + "To: ", posp + "Result: ",
                   "- The pre-position is%s winning." % ("" if pw[s] else " not"),
                   "- The transition %s the SAFETY ASSUMPTIONS" % ("SATISFIES" if g.E[s, i] else "VIOLATES"),
                   "- The transition %s the SAFETY GUARANTEES" % ("SATISFIES" if g.T[s, i, o] else "VIOLATES")]
            for n, e in enumerate(exp):
                if len(l) <= n or l[n] != e:
                    raise Violation("CHECKTRANS <%s> -> <%s> answers %r instead of %r" % (sp.state_str(s), sp.state_str(t), l[n:n + 1], e))
            if len(l) < 9:
                raise Violation("CHECKTRANS: incomplete answer %r" % txt)
            for n, pre, arr in ((6, "- The transition is a goal transition for the following liveness assumptions: ", g.A),
                                (7, "- The transition is a goal transition for the following liveness guarantees: ", g.G)):
                e = [j for j, a in enumerate(arr) if a[s, i, o]]
                if goal_list(l[n], pre) != e:
                    raise Violation("CHECKTRANS <%s> -> <%s>: %r, but it should list %s" % (sp.state_str(s), sp.state_str(t), l[n], e))
            for j in goal_list(l[8], "- The transition is a possible transition in a strategy for the following goals: "):
                if j >= ngoals:
                    raise Violation("CHECKTRANS lists goal %d of %d" % (j, ngoals))
                PS[j, s, i, o] = True
        if real:
            self.check_sys(g, sp, w, PS)
        else:
            self.check_env(g, sp, ~w, PS)
        # ---- the session
        ok0 = pw & g.initEnv & g.initSys
        cur, cnt, answered = None, 0, 0
        fmt = lambda s: "".join(map(str, bvec[s]))

        for cmd, txt in zip(cmds2, chunks[len(queries):]):
            def bad(why):
                raise Violation("%s in <%s>, goal %d answers %r: %s" % (" ".join(str(x) for x in cmd), "none" if cur is None else
                                                                        sp.state_str(cur), cnt, txt, why))
            x = cmd[0]
            if x == "STARTPOS":
                if not ok0.any():
                    if not txt.startswith("Error"):
                        bad("there is no such position")
                    continue
                m = re.fullmatch("".join(" - %s: ([01])\n" % re.escape(n) for n in names), txt)
                if not m:
                    bad("not a position")
                cur = sidx([int(v) for v in m.groups()])
                if not ok0[cur]:
                    bad("not a winning initial position")
                answered += 1
            elif x == "XGETINIT":
                if not ok0.any():
                    if txt != "\nERROR\n":
                        bad("there is no such position")
                    continue
                m = re.fullmatch(r"\n([01]{%d}),0\n" % k, txt)
                if not m:
                    bad("not a position")
                cur, cnt = sidx([int(v) for v in m.group(1)]), 0
                if not ok0[cur]:
                    bad("not a winning initial position")
                answered += 1
            elif x == "SETPOS":
                v, msg = self.values(cmd[1])
                if txt != "Position: \n" + "".join(" - %s: %s" % (n, q) for n, q in zip(names, msg)):
                    bad("unexpected dialogue")
                cur = sidx(v)
            elif x == "MOVE":
                if not real:
                    if not txt.startswith("Error"):
                        bad("MOVE is not possible in an unrealizable specification")
                    continue
                o, val = self.num(cmd[1])
                if not o:
                    if txt != "Guarantee No.:     -> Error reading value. Aborting \n":
                        bad("unexpected dialogue")
                    continue
                if val < 0 or val >= nG:
                    if txt not in ("Guarantee No.:     -> Number too large. Aborting \n",
                                   "Guarantee No.:     -> Error reading value. Aborting \n"):
                        bad("unexpected dialogue")
                    continue
                if not g.E[cur].any():
                    if txt != "Guarantee No.: No move possible. There is no allowed next input!\n":
                        bad("there is no allowed next input")
                    continue
                v, msg = self.values(cmd[2])
                i = sum(b << j for j, b in enumerate(v))
                pre = "Guarantee No.: To: \n" + "".join(" - %s': %s" % (n, q) for n, q in zip(sp.inputs, msg))
                if not txt.startswith(pre):
                    bad("unexpected dialogue")
                rest = txt[len(pre):]
                if ("Warning: that is an illegal next input!\n" in rest) != (not g.E[cur, i]):
                    bad("wrong warning about the next input")
                rest = rest.replace("Warning: that is an illegal next input!\n", "")
                if not PS[val, cur, i].any():
                    if not rest.startswith("    -> Error: Input not allowed here.\n"):
                        bad("there is no such transition in the strategy")
                    continue
                l = rest.split("\n")
                ob = []
                for n, q in zip(sp.outputs, l):
                    if not re.fullmatch(r" - %s' = [01]" % re.escape(n), q):
                        bad("unexpected dialogue")
                    ob.append(int(q[-1]))
                o = sum(b << j for j, b in enumerate(ob))
                if not PS[val, cur, i, o]:
                    bad("not a transition of the strategy for goal %d" % val)
                l = l[no:]
                for q, pre, e in zip(l, ("- The transition is a goal transition for the following liveness assumptions: ",
                                         "- The transition is a goal transition for the following liveness guarantees: ",
                                         "- The transition is a possible transition in a strategy for the following goals: "),
                                     (g.A, g.G, PS)):
                    e = [j for j in range(len(e)) if e[j][cur, i, o]]
                    if goal_list(q, pre) != e:
                        bad("should list %s" % e)
                cur = i << no | o
                answered += 1
            elif x in ("XMAKETRANS", "XMAKETRANSRANDOM"):
                i = sum(int(v) << j for j, v in enumerate(cmd[1]))
                if cur is None or not PS[cnt, cur, i].any() or not g.E[cur, i]:
                    if txt != "\nERROR\n":
                        bad("there is no such transition in the strategy")
                    continue
                m = re.fullmatch(r"\n([01]{%d}),(\d+)\n" % k, txt)
                if not m:
                    bad("not a position")
                t = sidx([int(v) for v in m.group(1)])
                if t >> no != i:
                    bad("the position does not have the input given")
                o = t & (g.O - 1)
                if not PS[cnt, cur, i, o]:
                    bad("not a transition of the strategy for the current goal")
                n, first = cnt, True
                while (first or n != cnt) and g.G[n][cur, i, o]:
                    n, first = (n + 1) % nG, False
                if int(m.group(2)) != n:
                    bad("the next goal should be %d" % n)
                cur, cnt = t, n
                answered += 1
            elif x == "XPRINTINPUTS":
                if txt != "\n" + "".join(n + "\n" for n in sp.inputs) + "\n":
                    bad("not the inputs")
            elif x == "XPRINTOUTPUTS":
                if txt != "\n" + "".join(n + "\n" for n in sp.outputs) + "\n":
                    bad("not the outputs")
            elif x == "XGETNOFLIVENESSPROPERTIES":
                if txt != "\n%d\n%d\n" % (nA, nG):
                    bad("should be %d and %d" % (nA, nG))
            elif x == "XCOMPLETEINIT":
                self.complete(sp, g, cmd[1], txt, real, pw, bvec, bad)
                answered += 1
            elif x == "XSTRATEGYTRANSITION":
                self.transition(sp, g, cmd, txt, real, PS, bvec, sidx, bad)
                answered += 1
            elif not txt.startswith("Error: Did not understand command '%s'" % x):
                bad("not a command")
        if fail and chunks[-1] != "\n":
            raise Violation("XMAKETRANS for an unrealizable specification answers %r" % chunks[-1])
        nt = answered >= 3 and not (g.T.all() and g.E.all())
        return {"key": self.render(c) if nt else None, "nontrivial": nt, "labels": ["realizable" if real else "unrealizable"]}

    @staticmethod
    def move_pos(cmd, k, c, n):
        """a position that depends on the case only"""
        return sum((c.style[j % len(c.style)] >> 1 & 1) << b for b, j in enumerate(range(n, n + k)))

    @staticmethod
    def num(t):
        try:
            return True, int(t)
        except ValueError:
            return False, 0

    def values(self, l):
        v, msg = [], []
        for t in l:
            o, x = self.num(t)
            if not o:
                v.append(0)
                msg.append("    -> Error reading value. Assuming 0.\n")
            elif x in (0, 1):
                v.append(x)
                msg.append("")
            else:
                v.append(1)
                msg.append("    -> Value != 0 or 1. Assuming 1.\n")
        return v, msg

    def check_sys(self, g, sp, w, PS):
        toW = g.to(w)
        for j in range(len(PS)):
            PW = PS[j] & w[:, None, None] & g.E[:, :, None]
            if (PW & ~(g.T & toW)).any():
                s, i, o = np.argwhere(PW & ~(g.T & toW))[0]
                raise Violation("goal %d: transition <%s> -> <%s> of the strategy is not safe or leaves the winning positions" % (
                    j, sp.state_str(s), sp.state_str(i << sp.no | o)))
            miss = w[:, None] & g.E & ~PW.any(axis=2)
            if miss.any():
                s, i = np.argwhere(miss)[0]
                raise Violation("goal %d: the strategy has no transition from <%s> for next input %d" % (j, sp.state_str(s), i))
            M = PW & ~g.G[j]
            adj = {int(s): [int(i) << sp.no | int(o) for i, o in np.argwhere(M[s])] for s in np.nonzero(w)[0]}
            A = [(lambda v, x, a=a: bool(a[v, x >> sp.no, x & (g.O - 1)])) for a in g.A]
            cyc = S.fair_cycle(adj, None, A, None)
            if cyc is not None:
                raise Violation("goal %d: the strategy can cycle through %s, satisfying all assumptions, without ever satisfying the "
                                "guarantee" % (j, [sp.state_str(s) for s in sorted(cyc)][:8]))

    def check_env(self, g, sp, ew, PS):
        no, O = sp.no, g.O
        lose = ~g.to(ew) & g.T
        n = len(PS)
        for j in range(n):
            P = PS[j].any(axis=2)
            if (PS[j] != P[:, :, None]).any():
                raise Violation("assumption %d: the environment strategy depends on the next output" % j)
            P = P & ew[:, None]
            if (P & ~g.E).any():
                raise Violation("assumption %d: the environment strategy violates the safety assumptions" % j)
            if (ew & ~P.any(axis=1)).any():
                raise Violation("assumption %d: the environment strategy has no move from a winning position" % j)
            if (P[:, :, None] & lose).any():
                s = np.argwhere(P[:, :, None] & lose)[0][0]
                raise Violation("assumption %d: the environment strategy leaves the winning positions from <%s>" % (j, sp.state_str(s)))
        adj, never = {}, {}
        for j in range(n):
            for s in np.nonzero(ew)[0]:
                l = []
                for i, o in np.argwhere(PS[j][s] & g.T[s]):
                    l.append((int(i) << no | int(o), (j + 1) % n if g.A[j][s, i, o] else j))
                adj[int(s), j] = l
                never[int(s), j] = [(t, q) for (t, q) in l if not g.A[j][s, t >> no, t & (O - 1)]]
        cyc = S.fair_cycle(never, None, [], None)
        if cyc is not None:
            raise Violation("the environment strategy can cycle without satisfying assumption %d: %s" % (
                sorted(cyc)[0][1], [sp.state_str(s) for s, _ in sorted(cyc)][:8]))
        G = [(lambda v, x, a=a: bool(a[v[0], x[0] >> no, x[0] & (O - 1)])) for a in g.G]
        cyc = S.fair_cycle(adj, None, G, None)
        if cyc is not None:
            raise Violation("the environment strategy can cycle while all guarantees are satisfied: %s" % (
                [sp.state_str(s) for s, _ in sorted(cyc)][:8],))

    def letters(self, line, sets, k, bvec, pool, bad):
        """sets: list of (letter, set of states); pool: the final set that the position has to be in"""
        if not re.fullmatch("[01aAgGsS]{%d}" % k, line):
            bad("not a position")
        v = []
        for b, ch in enumerate(line):
            exp = None
            for let, st in sets:
                vals = {bvec[s][b] for s in st}
                if len(vals) == 1:
                    exp = let.upper() if 1 in vals else let
                    break
            if exp is not None and ch != exp:
                bad("bit %d should be %r" % (b, exp))
            if exp is None and ch not in "01":
                bad("bit %d is not determined" % b)
            v.append(1 if ch in "1AGS" else 0)
        s = [t for t in bvec if bvec[t] == v][0]
        if s not in pool:
            bad("the position is not one of those looked for")
        return s

    def match(self, forced, bvec):
        return {s for s, b in bvec.items() if all(f == "." or int(f) == v for f, v in zip(forced, b))}

    def complete(self, sp, g, forced, txt, real, pw, bvec, bad):
        k = sp.k
        P1 = {s for s in self.match(forced, bvec) if g.initEnv[s]}
        l = txt.split("\n")
        if l[0] != "" or l[-1] != "":
            bad("unexpected answer")
        l = l[1:-1]
        if not P1:
            if l != ["FAILASSUMPTIONS"]:
                bad("no such position satisfies the assumptions")
            return
        win = {s for s in range(g.S) if pw[s]}
        sysi = {s for s in range(g.S) if g.initSys[s]}
        P2 = P1 & (sysi if real else win)
        P3 = P2 & (win if real else sysi)
        free = set(forced) <= {"."}
        fa, la, lb = None, ("g" if real else "s"), ("s" if real else "g")
        if not P2:
            if real or free:
                fa = [("a", P1)], P1
            elif l != ["FORCEDNONWINNING"]:
                bad("no such position is winning")
            else:
                return
        elif not P3:
            if real:
                if l != ["FORCEDNONWINNING"]:
                    bad("no such position is winning")
                return
            fa = [("a", P1), (la, P2)], P2
        if fa:
            if len(l) != 2 or l[0] != "FAILGUARANTEES":
                bad("no such position satisfies the guarantees")
            self.letters(l[1], fa[0], k, bvec, fa[1], bad)
            return
        if len(l) != 1:
            bad("unexpected answer")
        self.letters(l[0], [("a", P1), (la, P2), (lb, P3)], k, bvec, P3, bad)

    def transition(self, sp, g, cmd, txt, real, PS, bvec, sidx, bad):
        k, no, O = sp.k, sp.no, g.O
        s = sidx([int(v) for v in cmd[1]])
        ia, ig = cmd[3], cmd[4]
        nA, nG = len(g.A), len(g.G)
        at = lambda arr, t: bool(arr[s, t >> no, t & (O - 1)])
        T1 = {t for t in self.match(cmd[2], bvec) if g.E[s, t >> no]}
        l = txt.split("\n")
        if l[0] != "" or l[-1] != "":
            bad("unexpected answer")
        l = l[1:-1]
        if not T1:
            if l != ["FAILASSUMPTIONS"]:
                bad("no such transition satisfies the assumptions")
            return
        safe = {t for t in T1 if at(g.T, t)}
        st = {t for t in T1 if at(PS[ig if real else ia], t)}
        T2 = safe if real else st
        T3 = safe & st
        la, lb = ("g", "s") if real else ("s", "g")
        fa = None
        if not T2:
            if not real:
                if l != ["FORCEDNONWINNING"]:
                    bad("no such transition is in the strategy")
                return
            fa = [("a", T1)], T1
        elif not T3:
            if real:
                if l != ["FORCEDNONWINNING"]:
                    bad("no such transition is in the strategy")
                return
            fa = [("a", T1), (la, T2)], T2
        if len(l) != (4 if fa else 3) or fa and l[0] != "FAILGUARANTEES":
            bad("unexpected answer")
        if fa:
            self.letters(l[1], fa[0], k, bvec, fa[1], bad)
            if l[2:] != [str(ia), str(ig)]:
                bad("the goals should stay %d and %d" % (ia, ig))
            return
        alive = {t for t in T3 if (g.E[t][:, None] & g.T[t]).any()}
        t = self.letters(l[0], [("a", T1), (la, T2), (lb, T3)], k, bvec, alive or T3, bad)
        exp = [str((ia + at(g.A[ia], t)) % nA), str((ig + at(g.G[ig], t)) % nG)]
        if l[1:] != exp:
            bad("the next goals should be %s" % exp)


PROP = P()
