"""Running slugs on generated inputs and reading what it prints."""
import os, subprocess, signal, re, json, zlib
from .pbt import Violation, Inconclusive

WALL = int(os.environ.get("VP_WALL", "300"))


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def verdict(self):
        r = re.findall(r"^RESULT: Specification is (unrealizable|realizable)\.", self.err, re.M)
        if len(r) != 1:
            raise Violation("expected exactly one RESULT line on stderr, got %r (exit %s)" % (self.err[-400:], self.rc))
        return r[0] == "realizable"


def run(ctx, args, stdin=None, variant="slugs", cpu=20, env=None, check_rc=True, binary=False, cache="4096"):
    exe = ctx.builds[variant]
    e = {"VP_CPU": str(cpu), "VP_FSIZE_MB": "200", "PATH": "/usr/bin:/bin", "LANG": "C",
         "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4000",
         "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}
    if "asan" not in exe and "dyn" not in exe:
        e["VP_AS_MB"] = "4000"
    if cache:
        e["VP_CACHE"] = cache
    if env:
        e.update(env)
    p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ctx.scratch, env=e)
    try:
        out, err = p.communicate(stdin.encode("latin-1") if isinstance(stdin, str) else stdin, timeout=WALL)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Inconclusive("wall clock limit")
    if not binary:
        out = out.decode("latin-1")
    err = err.decode("latin-1")
    rc = p.returncode
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        if rc == -signal.SIGKILL:
            raise Inconclusive("killed from outside")
        raise Violation("slugs %s used %d s of processor time without finishing" % (" ".join(args), cpu))
    if check_rc and rc != 0:
        raise Violation("slugs %s ended with %s instead of 0; stderr: %r" % (" ".join(args), rc, err[-600:]))
    if "referenced nodes in the BDD manager left" in err:
        raise Violation("slugs %s leaks BDD references: %r" % (" ".join(args), err[-300:]))
    return Result(rc, out, err)


def write(ctx, name, text):
    p = os.path.join(ctx.scratch, name)
    with open(p, "w", encoding="latin-1") as f:
        f.write(text)
    return p


STALE = "State 0 with rank 0 -> <stale:1>\n\tWith successors : 0\n" * 400


def destination(ctx, name, text):
    """an output file that does not exist yet, or (decided by the case) that has other contents, to be replaced"""
    p = os.path.join(ctx.scratch, name)
    if os.path.exists(p):
        os.unlink(p)
    if zlib.crc32(text.encode("latin-1")) & 1:
        with open(p, "w") as f:
            f.write(STALE)
    return p


def written(p):
    """the contents of an output file, None if it was not written"""
    if not os.path.exists(p):
        return None
    with open(p) as f:
        t = f.read()
    return None if t == STALE else t


# ---------------------------------------------------------------- strategies
class Strategy:
    """nodes: list of (valuation dict, rank, [successor ids]) keyed by id"""

    def __init__(self, variables, nodes):
        self.variables = variables
        self.nodes = nodes


STATE_RE = re.compile(r"^State (\d+) with rank (\d+) -> <(.*)>$")


def parse_valuation(txt):
    r = []
    if txt.strip() == "":
        return r
    for part in txt.split(", "):
        n, v = part.rsplit(":", 1)
        if v not in ("0", "1"):
            raise Violation("state valuation %r is not Boolean" % txt)
        r.append((n, int(v)))
    return r


def parse_text_strategy(text):
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    nodes = {}
    variables = None
    i = 0
    while i < len(lines):
        m = STATE_RE.match(lines[i])
        if not m or i + 1 >= len(lines) or not lines[i + 1].startswith("\tWith successors : "):
            raise Violation("explicit strategy: cannot read line %d: %r" % (i + 1, lines[i:i + 2]))
        sid, rank = int(m.group(1)), int(m.group(2))
        val = parse_valuation(m.group(3))
        if variables is None:
            variables = [n for n, _ in val]
        elif variables != [n for n, _ in val]:
            raise Violation("explicit strategy: states list different variables")
        st = lines[i + 1][len("\tWith successors : "):].strip()
        succ = [int(x) for x in st.split(", ")] if st else []
        if sid in nodes:
            raise Violation("explicit strategy: state %d printed twice" % sid)
        nodes[sid] = (tuple(v for _, v in val), rank, succ)
        i += 2
    return Strategy(variables or [], nodes)


def parse_json_strategy(text):
    def no_dup(pairs):
        d = {}
        for k, v in pairs:
            if k in d:
                raise Violation("JSON strategy: key %r occurs twice" % k)
            d[k] = v
        return d
    try:
        d = json.loads(text, object_pairs_hook=no_dup)
    except json.JSONDecodeError as e:
        raise Violation("JSON strategy is not valid JSON: %s" % e)
    if set(d) != {"version", "slugs", "variables", "nodes"}:
        raise Violation("JSON strategy has keys %r" % sorted(d))
    nodes = {}
    for k, n in d["nodes"].items():
        if set(n) != {"rank", "state", "trans"}:
            raise Violation("JSON strategy node has keys %r" % sorted(n))
        nodes[int(k)] = (tuple(n["state"]), n["rank"], list(n["trans"]))
    return Strategy(d["variables"], nodes)
