"""C10: the slugsin format: layout and formula operators (with memory buffers) mean what the documentation says; malformed
files are rejected."""
import numpy as np
from vlib import pbt, gr1, slugs, slugsin, cnf
from vlib.pbt import Violation

INAMES = ["a", "aa", "b", "in_1", "s@0.0.7", "s@1", "A", "x.y", "p->q", "1a"]
ONAMES = ["x", "xx", "y", "o_1", "r@0.1.5", "r@1", "X", "a.b", "m<3", "0b"]
WS = [" ", "  ", "\t", " \t ", " \v", "\f"]


def gen_mem_formula(tc, atoms, depth, mem):
    """mem: number of stored elements of the innermost buffer"""
    if not atoms and not mem:
        return (tc.pick(["1", "0"]),)
    kind = tc.weighted([(4 if depth > 0 else 20, "lit"), (3 if depth > 0 else 0, "bin"), (3 if depth > 0 else 0, "$"),
                        (6 if mem else 0, "?"), (2 if depth > 0 else 0, "not"), (1, "const")])
    if kind == "?" and mem:
        return ("?", tc.choice(mem))
    if kind == "lit" and atoms:
        return gr1.gen_literal(tc, atoms)
    if kind == "not" and depth > 0:
        return ("!", gen_mem_formula(tc, atoms, depth - 1, mem))
    if kind == "bin" and depth > 0:
        return (tc.pick("&|^"), gen_mem_formula(tc, atoms, depth - 1, mem), gen_mem_formula(tc, atoms, depth - 1, mem))
    if kind == "$" and depth > 0:
        if tc.bool(0.05):       # many elements
            n = tc.int(9, 14)
            return ("$", [gen_mem_formula(tc, atoms, min(depth - 1, 1 if i > 8 else 0), i) for i in range(n)])
        n = tc.int(1, 4)
        return ("$", [gen_mem_formula(tc, atoms, depth - 1, i) for i in range(n)])
    return (tc.pick(["1", "0"]),)


class P(pbt.Prop):
    id = "C10"
    variants = ["slugs"]
    quick_cases = 30000
    thorough_cases = 600000
    rule = ("random slugsin files: formulas with nested memory buffers, odd names, sections repeated and in any order that declares "
            "variables first, comments, blank lines, all kinds of white space; 30% get one random token/line mutation. An "
            "independent reader decides whether the file is well-formed; if so, the clauses slugs reports for it must have the "
            "truth tables of the sections, otherwise slugs must reject the file (exit code 1, 'Error:', no RESULT); non-trivial: "
            "a memory buffer or an unusual layout is present, or the file is malformed")
    assumptions = ["observation through --computeCNFFormOfTheSpecification and through the verdict"]

    def gen(self, tc):
        ni, no = tc.int(0, 2), tc.int(0, 2)
        ins, outs = tc.shuffle(INAMES)[:ni], tc.shuffle(ONAMES)[:no]
        sp = gr1.Spec(ins, outs)
        at = {"ENV_INIT": [(n, 0) for n in ins], "SYS_INIT": [(n, 0) for n in ins + outs],
              "ENV_TRANS": [(n, q) for n in ins for q in (0, 1)] + [(n, 0) for n in outs],
              "SYS_TRANS": [(n, q) for n in ins + outs for q in (0, 1)]}
        at["ENV_LIVENESS"] = at["SYS_LIVENESS"] = at["SYS_TRANS"]
        blocks = []
        for s in gr1.SECTIONS:
            fs = tc.list(lambda t: gen_mem_formula(t, [(n, bool(q)) for n, q in at[s]], t.int(1, 4), 0), 0, 3, 0.55)
            setattr(sp, s, fs)
            for f in fs:
                if blocks and blocks[-1][0] == s and tc.bool(0.7):
                    blocks[-1][1].append(f)
                else:
                    blocks.append((s, [f]))
        if tc.bool(0.4):
            blocks = tc.shuffle(blocks)
        lines = []
        decl = [("INPUT", ins), ("OUTPUT", outs)]
        if tc.bool(0.3):
            decl.reverse()
        if tc.bool(0.2) and ins:
            decl = [("INPUT", ins[:1]), ("OUTPUT", outs), ("INPUT", ins[1:])]
        wild = tc.bool(0.5)

        def ws(t):
            return t.pick(WS) if wild else " "

        def emit(l):
            if wild:
                while tc.bool(0.15):
                    lines.append(tc.pick(["", "  ", "# comment", "  # [INPUT]", "#a", "\t", "\r"]))
                l = (tc.pick(["", " ", "\t"]) if tc.bool(0.3) else "") + l + (tc.pick([" ", "\r", "\t "]) if tc.bool(0.3) else "")
            lines.append(l)
        for s, ns in decl:
            emit("[%s]" % s)
            for n in ns:
                emit(n)
        for s, fs in blocks:
            emit("[%s]" % s)
            for f in fs:
                toks = gr1.to_slugs(f).split(" ")
                l = toks[0]
                for t in toks[1:]:
                    l += (ws(tc) if wild and tc.bool(0.4) else " ") + t
                emit(l)
        mutated = tc.bool(0.3)
        if mutated and lines:
            i = tc.choice(len(lines))
            toks = lines[i].split(" ")
            k = tc.choice(9)
            j = tc.choice(len(toks))
            if k == 0:
                del toks[j]
            elif k == 1:
                toks[j] = tc.pick(["&", "|", "!", "^", "1", "0", "zz", "?", "$", "? 0", "? 1", "$ 2", "$ 0", "#", "$ 1", "[", "'"])
            elif k == 2:
                toks.insert(j, tc.pick(["&", "|", "!", "1", "0", "?", "$", "? 0", "$ 1", "$ 0", "$ 99999999", "? 99", "a", "x'"]))
            elif k == 3:
                toks[j] += "'"
            elif k == 4:
                toks[j] = toks[j].rstrip("'")
            if k < 5:
                lines[i] = " ".join(toks)
            elif k == 5:
                del lines[i]
            elif k == 6:
                lines.insert(i, lines[tc.choice(len(lines))])
            elif k == 7:
                lines.insert(i, tc.pick(["[INPUTS]", "[OUTPUT", "INPUT]", "[env_init]", "[SYS_TRANS] 1", "[]", "[", "[ENV_INIT]", "[SYS_INIT]"]))
            else:
                t = tc.choice(len(lines))
                lines[i], lines[t] = lines[t], lines[i]
        return sp, "\n".join(lines) + (tc.pick(["\n", ""]) if wild else "\n"), mutated, wild

    def render(self, case):
        return case[1]

    def check(self, case, ctx):
        sp0, text, mutated, wild = case
        try:
            sp = slugsin.parse(text)
        except slugsin.FormatError as e:
            sp = None
            why = str(e)
        f = slugs.write(ctx, "s.slugsin", text)
        if sp is None:
            if not mutated:
                raise RuntimeError("generator produced a malformed file: %s" % why)
            for args in (["--computeCNFFormOfTheSpecification"], []):
                r = slugs.run(ctx, args + [f], check_rc=False)
                if r.rc != 1 or "Error" not in r.err or "RESULT" in r.err:
                    raise Violation("malformed file (%s) is not rejected: exit code %s, stderr %r" % (why, r.rc, r.err[-300:]))
            return {"key": text, "nontrivial": True, "labels": ["malformed: " + why]}
        if sp.k > 4 or any(set(n) & set(" \t\v\f\r") or n in "$?&|^!01" for n in sp.inputs + sp.outputs):
            return {"key": None, "nontrivial": False, "labels": ["skipped"]}
        r = slugs.run(ctx, ["--computeCNFFormOfTheSpecification", f])
        c = cnf.parse(r.out)
        if c.inputs != sp.inputs or c.outputs != sp.outputs:
            raise Violation("variables %r / %r are read as %r / %r" % (sp.inputs, sp.outputs, c.inputs, c.outputs))
        for part, secs in (("SafetyGuarantee", ["SYS_TRANS"]), ("SafetyAssumption", ["ENV_TRANS"]), ("Init", ["ENV_INIT", "SYS_INIT"])):
            ref = np.ones((1 << sp.k, 1 << sp.ni, 1 << sp.no), dtype=bool)
            for s in secs:
                ref &= sp.conj(getattr(sp, s))
            if not (cnf.conj_table(sp, c, c.clauses[part]) == ref).all():
                raise Violation("section %s is read with a different meaning" % secs)
        for part, s in (("LivenessGuarantee", "SYS_LIVENESS"), ("LivenessAssumption", "ENV_LIVENESS")):
            fs = getattr(sp, s) or [("1",)]
            if len(c.live[part]) != len(fs):
                raise Violation("%d formulas in %s are read as %d" % (len(fs), s, len(c.live[part])))
            for k, g in enumerate(fs):
                a, b = sp.arr(g), cnf.dnf_table(sp, c, c.live[part][k])
                if not (cnf.gf_implies(a, b) and cnf.gf_implies(b, a)):
                    raise Violation("formula %d of %s is read with a different meaning" % (k, s))
        got = slugs.run(ctx, [f]).verdict
        exp = gr1.Game(sp).realizable()
        if got != exp:
            raise Violation("verdict %s, expected %s" % (got, exp))
        mem = "$" in text
        return {"key": text, "nontrivial": mem or wild, "labels": ["well-formed", "memory buffer" if mem else "no memory buffer"] +
                (["mutated, still well-formed"] if mutated else [])}


PROP = P()
