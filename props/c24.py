"""C24: the command line contract: options, files, exit codes, determinism, and what is written."""
import json, os, stat
import numpy as np
from vlib import pbt, gr1, slugs
from vlib.pbt import Violation
from props import c18, c08
from props.c03 import gen_cost, cost_text

ALL = ["--explicitStrategy", "--symbolicStrategy", "--simpleSymbolicStrategy", "--jsonOutput", "--sysInitRoboticsSemantics",
       "--computeWeakenedSafetyAssumptions", "--biasForAction", "--computeCNFFormOfTheSpecification", "--counterStrategy",
       "--simpleRecovery", "--fixedPointRecycling", "--interactiveStrategy", "--IROSfastslow", "--analyzeInterleaving",
       "--analyzeInitialPositions", "--restrictToReachableStates", "--analyzeAssumptions", "--analyzeSafetyLivenessInteraction",
       "--computeInterestingRunOfTheSystem", "--computeAbstractWinningTrace", "--extractExplicitPermissiveStrategy",
       "--computeIncompleteInformationEstimator", "--nonDeterministicMotion", "--twoDimensionalCost", "--cooperativeGR1Strategy"]
SINGLES = [["--analyzeAssumptions"], ["--analyzeInitialPositions"], ["--analyzeInitialPositions", "--restrictToReachableStates"],
           ["--analyzeInterleaving"], ["--analyzeSafetyLivenessInteraction"], ["--computeAbstractWinningTrace"],
           ["--computeCNFFormOfTheSpecification"], ["--computeInterestingRunOfTheSystem"], ["--computeWeakenedSafetyAssumptions"],
           ["--counterStrategy"], ["--counterStrategy", "--sysInitRoboticsSemantics"]]
OTHER = [["--computeIncompleteInformationEstimator"], ["--nonDeterministicMotion"], ["--nonDeterministicMotion",
         "--sysInitRoboticsSemantics"], ["--interactiveStrategy", "--nonDeterministicMotion"]]


def combos():
    r = [list(x) for x in SINGLES]
    for base in (None, "--IROSfastslow", "--biasForAction", "--cooperativeGR1Strategy", "--fixedPointRecycling", "--twoDimensionalCost"):
        b = [base] if base else []
        for extract in [[]] + [[k] + j + s for k, js in (("--explicitStrategy", ([], ["--jsonOutput"])), ("--symbolicStrategy", ([],)),
                                                       ("--simpleSymbolicStrategy", ([],))) for j in js for s in ([], ["--simpleRecovery"])]:
            for i in ([], ["--sysInitRoboticsSemantics"]):
                r.append(b + extract + i)
        if base != "--cooperativeGR1Strategy":
            for i in ([], ["--sysInitRoboticsSemantics"]):
                r.append(b + ["--extractExplicitPermissiveStrategy"] + i)
        r.append(b + ["--interactiveStrategy"])
    return r


VALID = combos()
VALIDSETS = {frozenset(x) for x in VALID + OTHER}
FAULTS = ["unknown option", "impermissible", "too many files", "no specification", "missing specification", "directory as specification",
          "missing cost file", "no output file", "output in missing directory", "full disk"]


class Case:
    pass


class P(pbt.Prop):
    id = "C24"
    variants = ["slugs"]
    quick_cases = 45000
    thorough_cases = 700000
    rule = ("random specifications with every permissible option combination (options shuffled, repeated, between the file names, output "
            "to a file, standard output), run twice; or with one fault (unknown option, impermissible combination, missing, "
            "superfluous, unreadable or unwritable files, full disk); exit code, message, verdict, output format, determinism and "
            "every file in the directory are checked; non-trivial: every case (a distinct command line and specification)")
    assumptions = ["an unwritable output matters only if there is a strategy to be written"]

    def gen(self, tc):
        c = Case()
        c.sp = gr1.gen_spec(tc, max_in=2, max_out=2, max_live=2)
        c.opts = list(tc.pick(VALID))
        c.fault = tc.pick(FAULTS) if tc.bool(0.35) else None
        if c.fault == "impermissible":
            while frozenset(c.opts) in VALIDSETS:
                if tc.bool() and len(c.opts) > 1:
                    c.opts.pop(tc.choice(len(c.opts)))
                    c.opts.append(tc.pick(ALL))
                else:
                    c.opts.append(tc.pick(ALL))
                c.opts = sorted(set(c.opts))
        if c.fault == "no output file":
            c.opts = [tc.pick(["--symbolicStrategy", "--simpleSymbolicStrategy"])] + [o for o in ("--sysInitRoboticsSemantics",) if tc.bool(0.3)]
        if c.fault in ("output in missing directory", "full disk"):
            c.opts = list(tc.pick([x for x in VALID if set(x) & {"--explicitStrategy", "--symbolicStrategy", "--simpleSymbolicStrategy",
                                                                "--extractExplicitPermissiveStrategy", "--counterStrategy"}]))
        if c.fault == "missing cost file":
            c.opts = list(tc.pick([x for x in VALID if "--twoDimensionalCost" in x]))
        c.slow = [n for n in c.sp.outputs if tc.bool(0.5)] if "--IROSfastslow" in c.opts else None
        c.cost = gen_cost(tc, c.sp) if "--twoDimensionalCost" in c.opts else None
        c.out = tc.bool(0.5)
        c.rel = tc.bool(0.4)
        c.unknown = tc.pick(["--help", "-h", "--", "-", "--explicitstrategy", "--explicitStrategy=1", "--onlyRealizability", "--explicit"])
        c.order = tc.shuffle(list(range(12)))
        c.dup = tc.bool(0.2)
        c.old = tc.bool(0.3)
        return c

    def argv(self, c, d):
        """arguments with file names in directory d"""
        o = set(c.opts)
        fn = lambda n: n if c.rel else os.path.join(d, n)
        files = [fn("s p.slugsin")]
        if c.fault == "missing specification":
            files = [fn("missing.slugsin")]
        if c.fault == "directory as specification":
            files = [fn("dir")]
        if c.cost and c.fault != "missing cost file":
            files.append(fn("c.cost"))
        needs = bool(o & {"--symbolicStrategy", "--simpleSymbolicStrategy"})
        may = needs or bool(o & {"--explicitStrategy", "--extractExplicitPermissiveStrategy", "--counterStrategy"})
        out = None
        if c.fault == "output in missing directory":
            out = fn("missing/out.txt")
        elif c.fault == "full disk":
            out = "/dev/full"
        elif c.fault in ("missing cost file", "no output file"):
            pass
        elif needs or may and c.out or c.fault == "too many files":
            out = fn("out.txt")
        if out:
            files.append(out)
        if c.fault == "too many files" and may:
            files.append(fn("extra.txt"))
        if c.fault == "no specification":
            files = []
        opts = list(c.opts)
        if c.fault == "unknown option":
            opts.append(c.unknown)
        if c.dup and opts:
            opts.append(opts[0])
        # options in any order between the files, whose order stays
        slots = sorted([(c.order[i % 12], i, x) for i, x in enumerate(opts)])
        res, fi = [], 0
        for k, (pos, _, x) in enumerate(slots):
            while fi < len(files) and pos % 3 == 0 and fi * 2 < k + 1:
                res.append(files[fi])
                fi += 1
            res.append(x)
        return res + files[fi:], out

    def render(self, c):
        return "fault: %s, %s\n%s%s" % (c.fault, self.argv(c, "DIR")[0], c.sp.text(c.slow), "\n-- cost\n" + cost_text(c.cost) if c.cost else "")

    def snapshot(self, d):
        r = {}
        for root, dirs, files in os.walk(d):
            for n in dirs:
                r[os.path.relpath(os.path.join(root, n), d)] = "dir"
            for n in files:
                p = os.path.join(root, n)
                with open(p, "rb") as f:
                    r[os.path.relpath(p, d)] = f.read()
        return r

    def check(self, c, ctx):
        import shutil
        sp = c.sp
        outs = []
        o = set(c.opts)
        for attempt in range(2 if c.fault is None else 1):
            d = os.path.join(ctx.scratch, "cli")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(os.path.join(d, "dir"))
            sub = type("X", (), {"scratch": d, "builds": ctx.builds})()
            slugs.write(sub, "s p.slugsin", sp.text(c.slow))
            if c.cost:
                slugs.write(sub, "c.cost", cost_text(c.cost))
            if c.fault == "too many files" and c.old:
                slugs.write(sub, "extra.txt", "keep me\n")
            if c.old and c.fault != "too many files":
                slugs.write(sub, "out.txt", "old contents " * 500)
            args, out = self.argv(c, d)
            before = self.snapshot(d)
            r = slugs.run(sub, args, check_rc=False)
            after = self.snapshot(d)
            outs.append((r.out, r.err, r.rc, after))
        if len(outs) == 2 and outs[0] != outs[1]:
            raise Violation("two runs of slugs %s differ" % args)
        changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)}
        labels = ["fault: %s" % c.fault] if c.fault else [" ".join(c.opts)]
        key = (sp.text(c.slow), tuple(args))
        res = {"key": key, "nontrivial": True, "labels": labels}
        exp = None
        if o & set(ALL) == o and c.fault not in ("unknown option", "impermissible"):
            exp = self.verdict(c)
        if c.fault in ("output in missing directory", "full disk"):
            writes = (not exp if "--counterStrategy" in o else exp)
            if c.fault == "full disk" and writes:
                # there may be nothing to be written
                r2 = slugs.run(sub, [os.path.join(d, "full.txt") if x == "/dev/full" else x for x in args], check_rc=False)
                p = os.path.join(d, "full.txt")
                writes = os.path.exists(p) and os.path.getsize(p) > 0
            if changed - {"out.txt"}:
                raise Violation("slugs %s changed %s" % (args, sorted(changed)))
            if writes and (r.rc != 1 or "Error" not in r.err):
                raise Violation("the strategy cannot be written, but slugs ends with %s (%r)" % (r.rc, r.err[-300:]))
            if not writes and r.rc != 0:
                raise Violation("slugs %s ended with %s (%r)" % (args, r.rc, r.err[-300:]))
            return res
        if c.fault:
            if r.rc != 1 or "Error" not in r.err:
                raise Violation("%s: slugs %s ends with %s (%r)" % (c.fault, args, r.rc, r.err[-300:]))
            if "RESULT" in r.err + r.out:
                raise Violation("%s: slugs %s prints a result" % (c.fault, args))
            if c.fault == "unknown option" and not all(x in r.err for x in ALL):
                raise Violation("the usage does not list all options")
            if changed:
                raise Violation("%s: slugs %s changed %s" % (c.fault, args, sorted(changed)))
            return res
        if r.rc != 0:
            raise Violation("slugs %s ends with %s (%r)" % (args, r.rc, r.err[-300:]))
        if exp is None:
            if changed:
                raise Violation("slugs %s changed %s" % (args, sorted(changed)))
            return res
        if r.verdict != exp:
            raise Violation("slugs %s says %s, the game says %s" % (args, r.verdict, exp))
        writes = out and (not exp if "--counterStrategy" in o else exp)
        if changed != ({"out.txt"} if writes else set()):
            raise Violation("slugs %s changed %s" % (args, sorted(changed)))
        text = after["out.txt"].decode("latin-1") if writes else r.out
        if "--interactiveStrategy" in o:
            if r.out != "> ":
                raise Violation("the shell prints %r" % r.out[:200])
            return res
        if writes and r.out.strip() and "--counterStrategy" not in o:
            raise Violation("slugs %s writes to a file, but prints %r, too" % (args, r.out[:200]))
        have = not exp if "--counterStrategy" in o else exp
        if not have or not o & {"--explicitStrategy", "--symbolicStrategy", "--simpleSymbolicStrategy"}:
            if "--counterStrategy" not in o and "--extractExplicitPermissiveStrategy" not in o and r.out.strip():
                raise Violation("slugs %s prints %r" % (args, r.out[:200]))
            return res
        if "--jsonOutput" in o:
            slugs.parse_json_strategy(text)
        elif "--explicitStrategy" in o:
            slugs.parse_text_strategy(text)
        else:
            if ".ver DDDMP" not in text:
                raise Violation("slugs %s does not write a BDD: %r" % (args, text[:200]))
            simple = "strat_type" not in text
            if simple != ("--simpleSymbolicStrategy" in o):
                raise Violation("slugs %s writes the wrong kind of symbolic strategy" % args)
        return res

    def verdict(self, c):
        o = set(c.opts)
        if "--analyzeInterleaving" in o or (o & {x for l in SINGLES for x in l} - {"--counterStrategy", "--sysInitRoboticsSemantics"}):
            return None
        if c.slow is not None:
            g = c18.fastslow_game(c.sp, c.slow)
        else:
            g = gr1.Game(c.sp)
        w = c08.coop_winning(g) if "--cooperativeGR1Strategy" in o else g.winning()
        return g.realizable_robotics(w) if "--sysInitRoboticsSemantics" in o else g.realizable(w)


PROP = P()
