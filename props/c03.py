"""C03: text and JSON, stdout and file are four presentations of one strategy, and extracting it does not change the verdict."""
import os, re
from vlib import pbt, gr1, slugs, explicit
from vlib.pbt import Violation

BASES = [[], ["--biasForAction"], ["--fixedPointRecycling"], ["--cooperativeGR1Strategy"], ["--twoDimensionalCost"],
         ["--IROSfastslow"]]


def gen_cost(tc, sp):
    """cost file text with disjoint cost classes; also returned as a list [(cost, formula)]"""
    atoms = [(n, q) for n in sp.inputs + sp.outputs for q in (False, True)]
    w, a = tc.pick([("0", "1"), ("1", "0"), ("1", "1"), ("2", "0.5"), ("0", "2"), ("0.1", "0.3"), ("0.7", "0.1")])
    pref = tc.pick(["<", ">"])
    lines = []
    if atoms and tc.bool(0.8):
        sel = gr1.gen_literal(tc, atoms)
        classes = [sel, ("!", sel)]
        if tc.bool(0.35):
            sel2 = gr1.gen_literal(tc, atoms)
            classes = [("&", a, b) for b in (sel2, ("!", sel2)) for a in classes]
        pool = [1.0, 2.0, 0.5, 3.0, 1.5, 4.0] if tc.bool(0.6) else [0.1, 0.2, 0.3, 0.7, 1.1, 0.9]
        for i, x in enumerate(classes):
            if i == 0 or tc.bool(0.5):
                lines.append((tc.pick(pool), ("&", x, gr1.gen_clause(tc, atoms, 1, 2))))
    head = "%s %s %s" % (w, a, pref)
    return head, lines


def cost_text(cost):
    head, lines = cost
    return head + "\n# costs\n" + "\n".join("%s %s" % (c, gr1.to_slugs(f)) for c, f in lines) + "\n"


class P(pbt.Prop):
    id = "C03"
    variants = ["slugs"]
    quick_cases = 9000
    thorough_cases = 200000
    rule = ("random specifications, every explicit-strategy option combination (6 algorithms, both initialization semantics, with "
            "and without recovery): slugs is run without extraction and with text/JSON to stdout/file; the outputs are parsed and "
            "compared; non-trivial: a strategy with at least 3 states")
    assumptions = []

    def gen(self, tc):
        base = tc.pick(BASES)
        live = 3 if base not in (["--twoDimensionalCost"], ["--cooperativeGR1Strategy"]) else 2
        small = base == ["--twoDimensionalCost"]
        sp = gr1.gen_spec(tc, max_live=live, max_in=2 if small else 3, max_out=2 if small else 3, env_live=True)
        mode = base + (["--sysInitRoboticsSemantics"] if tc.bool(0.35) else []) + (["--simpleRecovery"] if tc.bool(0.3) else [])
        cost = gen_cost(tc, sp) if small else None
        slow = [n for n in sp.outputs if tc.bool(0.5)] if base == ["--IROSfastslow"] else None
        return sp, mode, cost, slow

    def render(self, case):
        sp, mode, cost, slow = case
        return " ".join(mode) + "\n" + sp.text(slow) + ("\n-- cost file:\n" + cost_text(cost) if cost else "")

    def check(self, case, ctx):
        sp, mode, cost, slow = case
        f = slugs.write(ctx, "s.slugsin", sp.text(slow))
        files = [f] + ([slugs.write(ctx, "s.cost", cost_text(cost))] if cost else [])
        plain = slugs.run(ctx, [m for m in mode if m != "--simpleRecovery"] + files)
        base = plain.verdict
        outs = []
        for js in (False, True):
            for tofile in (False, True):
                a = ["--explicitStrategy"] + mode + (["--jsonOutput"] if js else []) + files
                o = slugs.destination(ctx, "out.txt", sp.text(slow))
                r = slugs.run(ctx, a + ([o] if tofile else []))
                if r.verdict != base:
                    raise Violation("slugs %s: verdict %s, without extraction %s" % (" ".join(a), r.verdict, base))
                txt = r.out
                if tofile:
                    if r.out.strip():
                        raise Violation("the strategy goes to stdout although an output file is given")
                    txt = slugs.written(o)
                    if txt is None:
                        if base:
                            raise Violation("no output file was written")
                        txt = ""
                outs.append((js, tofile, txt))
        if not base:
            for js, tofile, txt in outs:
                if txt.strip():
                    raise Violation("unrealizable, but a strategy was printed (json=%s, file=%s)" % (js, tofile))
            return {"key": sp.text(), "nontrivial": False, "labels": ["unrealizable", "mode:" + " ".join(mode)]}
        if outs[0][2] != outs[1][2] or outs[2][2] != outs[3][2]:
            raise Violation("stdout and file output differ")
        vac = outs[0][2].strip() == ""
        t = slugs.parse_text_strategy(outs[0][2])
        j = slugs.parse_json_strategy(outs[2][2])
        if t.nodes != j.nodes:
            raise Violation("text and JSON strategies have different states: %r / %r" % (t.nodes, j.nodes))
        if not vac and t.variables != j.variables:
            raise Violation("text and JSON strategies list different variables: %r / %r" % (t.variables, j.variables))
        if not set(sp.inputs + sp.outputs) <= set(j.variables):
            raise Violation("variables missing from the strategy: %r" % (j.variables,))
        return {"key": (sp.text(), tuple(mode)), "nontrivial": len(t.nodes) >= 3, "labels": ["realizable", "mode:" + " ".join(mode)]}


PROP = P()
