"""C11: no input makes slugs access invalid memory, crash or hang.

The cases of the other checks (specifications, options, cost files, robot models, shell sessions, file faults) are run with a
slugs that is built with AddressSanitizer and UndefinedBehaviorSanitizer, some also under valgrind (uninitialized values). Half of the
cases additionally get random changes to all files slugs reads and to its standard input."""
import re, importlib, subprocess, os, signal
from vlib import pbt, slugs, dddmp
from vlib.pbt import Violation

SOURCES = [(3, "c24"), (3, "c10"), (4, "c19"), (2, "c22"), (2, "c23"), (2, "c09"), (2, "c03"), (1, "c05"), (1, "c07"), (1, "c08"), (1, "c06"),
           (1, "c12"), (1, "c13"), (1, "c14"), (1, "c15"), (1, "c16"), (1, "c17"), (1, "c18"), (1, "c20"), (1, "c21"), (1, "c02"), (1, "c25")]
TOKENS = ["&", "|", "!", "^", "1", "0", "?", "$", "? 0", "$ 2", "'", "[", "]", "[INPUT]", "[OUTPUT]", "[SYS_TRANS]", "[ENV_LIVENESS]", "#", " ",
          "\n", "\t", "\0", "\xff", "\r", ",", "-1", "4294967295", "4294967296", "99999999999999999999", "-", ".", "0.5", "nan", "1e308", "@", "@0",
          "x'", "a", "x", "quit", "XGETINIT", "CHECKTRANS", "STOP", "\"", "1 1 1", ".nodes", ".end"]
ENV = {"VP_FSIZE_MB": "200", "PATH": "/usr/bin:/bin", "LANG": "C", "VP_CACHE": "4096",
       "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=3000:hard_rss_limit_mb=3500",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}
REAL_RUN, REAL_WRITE = slugs.run, slugs.write


def mutate(text, edits):
    for pos, kind, tok, ln in edits:
        n = len(text)
        i = pos % (n + 1)
        if kind == 0:
            text = text[:i] + text[i + 1 + ln:]
        elif kind == 1:
            text = text[:i] + tok + text[i:]
        elif kind == 2:
            text = text[:i] + tok + text[i + 1:]
        elif kind == 3:
            text = text[:i]
        elif kind == 4:
            lines = text.split("\n")
            j = pos % len(lines)
            lines.insert((pos // 7) % (len(lines) + 1), lines[j])
            text = "\n".join(lines)
        elif kind == 5:
            lines = text.split("\n")
            del lines[pos % len(lines)]
            text = "\n".join(lines)
        elif kind == 6:
            # replaces a word
            words = list(re.finditer(r"\S+", text))
            if words:
                w = words[pos % len(words)]
                text = text[:w.start()] + tok + text[w.end():]
        elif kind == 7:
            text = text[:i] + text[i:i + 1 + ln] * 3 + text[i:]
        else:
            words = list(re.finditer(r"\d+", text))
            if words:
                w = words[pos % len(words)]
                text = text[:w.start()] + str(int(w.group(0)[:9]) + ln - 4) + text[w.end():]
    return text


class Case:
    pass


class P(pbt.Prop):
    id = "C11"
    variants = ["slugs_asan", "slugs_dyn"]
    quick_cases = 12000
    thorough_cases = 200000
    rule = ("the generated inputs of 22 other checks, half of them with random changes (deleted, inserted, replaced, repeated "
            "characters, words, lines and numbers) in every file and on standard input, run with AddressSanitizer and "
            "UndefinedBehaviorSanitizer, 1.5% under valgrind; exit code 0, or 1 with an error message; non-trivial: every executed "
            "command on a distinct input")
    assumptions = ["memory leaks other than of BDD references are not violations", "stack use is bounded by the nesting of formulas (at most a few "
                   "hundred levels here)"]
    shrink_exceptions = True

    def setup(self, ctx):
        self.src, self.ctx0, self.files = {}, ctx, {}
        self.rec = []
        self.active = None
        slugs.run, slugs.write = self.run, self.write

    def gen(self, tc):
        c = Case()
        c.src = tc.weighted(SOURCES)
        c.vg = tc.bool(0.015)
        c.edits = None
        if tc.bool(0.5):
            c.edits = tc.list(lambda t: (t.choice(4000), t.choice(9), t.pick(TOKENS), t.choice(9)), 1, 8, 0.6)
        c.prop = importlib.import_module("props." + c.src).PROP
        c.case = c.prop.gen(tc)
        return c

    def render(self, c):
        r = "inputs of %s%s, changes: %r" % (c.src, " under valgrind" if c.vg else "", c.edits)
        try:
            r += "\n" + c.prop.render(c.case)
        except Exception as e:
            r += "\n(no rendering: %s)" % e
        for args, files, stdin, why in getattr(self, "rec", [])[-1:]:
            r += "\n-- last command: %s" % args
            for n, t in files.items():
                r += "\n-- file %s\n%s" % (os.path.basename(n), t)
            if stdin:
                r += "\n-- stdin\n%s" % stdin
        return r

    # ------------------------------------------------------------ stand-ins for slugs.run and slugs.write
    def write(self, ctx, name, text):
        c = self.active
        if c is not None and c.edits and not name.endswith(".bdd"):
            # (the loader of the CUDD package for BDD files does not check them, see the known findings)
            text = mutate(text, c.edits)
        p = REAL_WRITE(ctx, name, text)
        self.files[p] = text
        return p

    def run(self, ctx, args, stdin=None, variant="slugs", cpu=20, env=None, check_rc=True, binary=False, cache="4096"):
        c = self.active
        if isinstance(stdin, str) and c.edits:
            stdin = mutate(stdin, c.edits)
        exe = self.ctx.builds["slugs_dyn" if c.vg else "slugs_asan"]
        e = dict(ENV, VP_CPU="400" if c.vg else "60")
        cmd = [exe] + args
        if c.vg:
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--error-limit=no"] + cmd
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ctx.scratch, env=e)
        try:
            out, err = p.communicate(stdin.encode("latin-1") if isinstance(stdin, str) else stdin, timeout=slugs.WALL)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise pbt.Inconclusive("wall clock limit")
        err = err.decode("latin-1")
        rc = p.returncode
        why = None
        if rc == -signal.SIGKILL and "hard rss limit" not in err:
            raise pbt.Inconclusive("killed from outside")
        if "hard rss limit" in err:
            raise pbt.Inconclusive("memory limit")
        if rc == -signal.SIGXCPU:
            why = "does not finish"
        elif "AddressSanitizer" in err and rc == 99:
            why = re.findall(r"ERROR: (AddressSanitizer.*)", err)[:1] or "AddressSanitizer"
            why = "%s\n%s" % (why, "\n".join(re.findall(r"^ *#\d+ .*$", err, re.M)[:8]))
        elif "runtime error" in err:
            why = re.findall(r".*runtime error.*", err)[0]
        elif c.vg and rc == 99:
            why = "valgrind: " + "\n".join(re.findall(r"^==\d+== .*$", err, re.M)[:12])
        elif rc not in (0, 1):
            why = "ended with %s: %r" % (rc, err[-400:])
        elif rc == 1 and "Error" not in err and "Usage" not in err:
            why = "failed without an error message: %r" % err[-400:]
        elif "referenced nodes in the BDD manager left" in err:
            why = "leaks BDD references: %r" % err[-300:]
        self.rec.append((args, dict(self.files), stdin, why))
        if why:
            raise Violation("slugs %s: %s" % (" ".join(args), why))
        if len(self.rec) > 12:
            raise pbt.Reject()
        if not binary:
            out = out.decode("latin-1")
        if check_rc and rc != 0:
            raise Violation("exit code")
        return slugs.Result(rc, out, err)

    def check(self, c, ctx):
        self.rec, self.files, self.active, self.ctx = [], {}, c, ctx
        sub = pbt.Ctx(ctx.scratch, {"slugs": "slugs"}, ctx.seed, ctx.tier)
        labels = ["inputs of " + c.src]
        try:
            if c.src not in self.src:
                self.src[c.src] = True
                c.prop.setup(sub)
            c.prop.check(c.case, sub)
        except pbt.Inconclusive:
            raise
        except Exception:
            # what the other check thinks of changed inputs and results does not matter here
            pass
        finally:
            self.active = None
        for args, files, stdin, why in self.rec:
            if why:
                raise Violation("slugs %s: %s" % (" ".join(args), why))
        labels.append("changed inputs" if c.edits else "original inputs")
        if c.vg:
            labels.append("valgrind")
        if not self.rec:
            return {"key": None, "nontrivial": False, "labels": ["nothing executed"]}
        return {"key": repr([(r[0], sorted(r[1].items()), r[2]) for r in self.rec]), "nontrivial": True, "labels": labels}

    def known_findings(self, ctx):
        sf = slugs.write(ctx, "k.slugsin", "[INPUT]\na\n[MOTION STATE OUTPUT]\nm\n[MOTION CONTROLLER OUTPUT]\nc\n[OTHER OUTPUT]\n")
        t = dddmp.write([False, True, True, False, True, False, False, True], 3)
        assert "4 0 0 3 -3\n" in t
        rf = slugs.write(ctx, "k.bdd", t.replace("4 0 0 3 -3\n", "4 0 0 3 777777777\n"))
        p = subprocess.run([self.ctx0.builds["slugs_asan"], "--nonDeterministicMotion", sf, rf], stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(ENV, VP_CPU="60"))
        yield "robot-bdd-reference", p.returncode not in (0, 1)


PROP = P()
