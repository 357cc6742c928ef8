"""A small property-based-testing engine with integrated shrinking.

A *case* is produced by a generator function `gen(tc)` that makes all of its random decisions through `tc.choice(n)`.
The sequence of decisions is recorded; a failing case is shrunk by deleting and lowering decisions and re-running the
generator (as in Hypothesis' internal reduction), and the shrunk sequence is what a replay file stores.

`check(case, ctx)` runs the code under test and compares it with the oracle. It raises Violation if the property is
broken; otherwise it returns a dict {"key": hashable, "nontrivial": bool, "labels": [...]} describing what was explored.
"""
import os, sys, json, time, random, hashlib, traceback, multiprocessing, queue, signal, select, contextlib


class Violation(Exception):
    pass


class Reject(Exception):
    """The choice sequence does not describe a case (overrun during shrinking)."""


class Inconclusive(Exception):
    """The harness could not decide this case (counted, never reported as a violation)."""


class TC:
    MAX = 60000

    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix if prefix is not None else []
        self.out = []

    def choice(self, n):
        """An integer in [0, n)."""
        i = len(self.out)
        if i >= self.MAX:
            raise Reject()
        if i < len(self.prefix):
            v = min(self.prefix[i], n - 1)
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.out.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.choice(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability p; False is the simpler choice."""
        i = len(self.out)
        if i < len(self.prefix):
            v = 1 if self.prefix[i] else 0
        elif self.rng is not None:
            v = 1 if self.rng.random() < p else 0
        else:
            v = 0
        self.out.append(v)
        return v == 1

    def pick(self, xs):
        return xs[self.choice(len(xs))]

    def weighted(self, pairs):
        """pairs: [(weight:int, value)]; the first one is the simplest."""
        tot = sum(w for w, _ in pairs)
        i = len(self.out)
        if i < len(self.prefix):
            v = min(self.prefix[i], len(pairs) - 1)
        elif self.rng is not None:
            r = self.rng.randrange(tot)
            v = 0
            while r >= pairs[v][0]:
                r -= pairs[v][0]
                v += 1
        else:
            v = 0
        self.out.append(v)
        return pairs[v][1]

    def list(self, elem, lo, hi, p=0.7):
        """A list of elem(tc) with lo..hi entries, built so that deleting decisions deletes elements."""
        r = []
        while len(r) < lo:
            r.append(elem(self))
        while len(r) < hi and self.bool(p):
            r.append(elem(self))
        return r

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.choice(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


class Prop:
    """Override gen, check, render. One instance per process; setup(ctx) is run once in every worker."""
    id = "C00"
    rule = ""
    assumptions = []
    quick_cases = 2000
    thorough_cases = 40000
    shrink_evals = 600
    shrink_seconds = 60
    workers = None
    variants = ["default"]      # builds of slugs that are needed
    force = {}                  # index -> choice prefix (directed seeds), optional

    def setup(self, ctx):
        pass

    def gen(self, tc):
        raise NotImplementedError

    def check(self, case, ctx):
        raise NotImplementedError

    def render(self, case):
        return json.dumps(case, default=str)

    def final(self, stats, ctx):
        """Hook for whole-run requirements; may raise Violation."""


class _Hang(BaseException):
    pass


def _hang(sig, frame):
    raise _Hang()


@contextlib.contextmanager
def cpu_limit(what, seconds=40):
    """Code under test that runs inside of this process"""
    old = signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    except _Hang:
        raise Violation("%s used %d s of processor time without finishing" % (what, seconds))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def cpu_time(pid):
    """Processor time of a child and of its finished children"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read().rsplit(")", 1)[1].split()
    except OSError:
        return 0.0
    return sum(int(x) for x in t[11:15]) / os.sysconf("SC_CLK_TCK")


def wait_answer(what, pid, fd, cpu, wall=400):
    """Waits until the child has written something; hanging is judged by the processor time that it used"""
    r, _, _ = select.select([fd], [], [], min(cpu, 5))
    if r:
        return
    start, t0 = cpu_time(pid), time.time()
    while True:
        r, _, _ = select.select([fd], [], [], 1)
        if r:
            return
        if cpu_time(pid) - start > cpu:
            raise Violation("%s used more than %d s of processor time without finishing" % (what, cpu))
        if time.time() - t0 > wall:
            raise Inconclusive("wall clock limit in " + what)


def case_seed(seed, pid, idx):
    h = hashlib.sha256(("%d/%s/%d" % (seed, pid, idx)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def make_case(prop, seed, idx):
    rng = random.Random(case_seed(seed, prop.id, idx))
    tc = TC(rng=rng, prefix=prop.force.get(idx))
    tc.index = idx
    case = prop.gen(tc)
    return case, tc.out


def run_case(prop, case, ctx):
    """Returns (info, violation message)"""
    try:
        info = prop.check(case, ctx)
        return info, None
    except Violation as v:
        return None, str(v)
    except Inconclusive as v:
        return {"key": None, "nontrivial": False, "labels": ["inconclusive"]}, None
    except (MemoryError, OSError, KeyboardInterrupt, ImportError, NameError, SyntaxError):
        raise
    except Exception as e:
        # The oracle could not interpret what the code under test produced.
        return None, "output could not be interpreted: %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc(limit=-4))


def shrink(prop, choices, ctx, log=None):
    t0 = time.time()
    budget = [prop.shrink_evals]
    best = list(choices)
    bestmsg = [None]
    seen = {}

    def attempt(cand):
        if budget[0] <= 0 or time.time() - t0 > prop.shrink_seconds:
            return None
        k = tuple(cand)
        if k in seen:
            return None
        seen[k] = 1
        tc = TC(prefix=cand)
        tc.index = -1
        try:
            case = prop.gen(tc)
        except Reject:
            return None
        except Exception:
            return None
        out = tc.out
        if (len(out), out) >= (len(best), best):
            return None
        budget[0] -= 1
        try:
            _, msg = run_case(prop, case, ctx)
        except Exception:
            return None
        if msg is not None:
            bestmsg[0] = msg
            return out
        return None

    improved = True
    while improved and budget[0] > 0 and time.time() - t0 < prop.shrink_seconds:
        improved = False
        # delete chunks
        for k in (64, 32, 16, 8, 6, 4, 3, 2, 1):
            i = len(best) - k
            while i >= 0:
                r = attempt(best[:i] + best[i + k:])
                if r is not None:
                    best = r
                    improved = True
                    i = min(i, len(best) - k)
                else:
                    i -= max(1, k // 2) if k > 4 else 1
        # zero chunks
        for k in (16, 8, 4, 2):
            i = len(best) - k
            while i >= 0:
                if any(best[i:i + k]):
                    r = attempt(best[:i] + [0] * k + best[i + k:])
                    if r is not None:
                        best = r
                        improved = True
                i = min(i, len(best)) - k
        # lower single values
        i = len(best) - 1
        while i >= 0:
            if i < len(best) and best[i] > 0:
                lo = 0
                for c in (0, 1, best[i] // 2, best[i] - 1):
                    if i < len(best) and c < best[i]:
                        r = attempt(best[:i] + [c] + best[i + 1:])
                        if r is not None:
                            best = r
                            improved = True
                            break
            i -= 1
    return best, bestmsg[0]


class Ctx:
    """Per-worker context: scratch directory and paths."""

    def __init__(self, scratch, builds, seed, tier):
        self.scratch = scratch
        self.builds = builds
        self.seed = seed
        self.tier = tier


def _worker(propmod, wid, nw, total, seed, tier, builds, scratch_root, minfail, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import importlib
    try:
        mod = importlib.import_module(propmod)
        prop = mod.PROP
        scratch = os.path.join(scratch_root, "w%d" % wid)
        os.makedirs(scratch, exist_ok=True)
        ctx = Ctx(scratch, builds, seed, tier)
        prop.setup(ctx)
        labels = {}
        keys = set()
        evals = 0
        samples = []
        failure = None
        for idx in range(wid, total, nw):
            if minfail.value >= 0 and idx > minfail.value:
                break
            case, choices = make_case(prop, seed, idx)
            evals += 1
            info, msg = run_case(prop, case, ctx)
            if msg is not None:
                with minfail.get_lock():
                    if minfail.value < 0 or idx < minfail.value:
                        minfail.value = idx
                failure = (idx, choices, msg)
                break
            for l in info.get("labels", ()):
                labels[l] = labels.get(l, 0) + 1
            if info.get("nontrivial"):
                key = info.get("key")
                h = hashlib.md5(repr(key).encode()).digest()[:8]
                if h not in keys:
                    keys.add(h)
                    if len(samples) < 2:
                        samples.append(prop.render(case))
        if hasattr(prop, "teardown"):
            prop.teardown(ctx)
        q.put(("done", wid, evals, labels, keys, samples, failure))
    except BaseException:
        q.put(("error", wid, traceback.format_exc()))


def run_all(propmod, prop, seed, tier, builds, scratch_root, total, nw):
    ctxm = multiprocessing.get_context("fork")
    q = ctxm.Queue()
    minfail = ctxm.Value("l", -1)
    procs = [ctxm.Process(target=_worker, args=(propmod, w, nw, total, seed, tier, builds, scratch_root, minfail, q))
             for w in range(nw)]
    for p in procs:
        p.start()
    stats = {"evaluations": 0, "labels": {}, "keys": set(), "samples": [], "failure": None, "error": None}
    left = nw
    results = []
    while left:
        try:
            m = q.get(timeout=5)
        except queue.Empty:
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead:
                stats["error"] = "worker died with exit code %s" % dead[0].exitcode
                break
            continue
        left -= 1
        if m[0] == "error":
            stats["error"] = m[2]
            continue
        results.append(m)
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    for m in sorted(results, key=lambda r: r[1]):
        _, wid, evals, labels, keys, samples, failure = m
        stats["evaluations"] += evals
        for k, v in labels.items():
            stats["labels"][k] = stats["labels"].get(k, 0) + v
        stats["keys"] |= keys
        stats["samples"] += samples
        if failure and (stats["failure"] is None or failure[0] < stats["failure"][0]):
            stats["failure"] = failure
    return stats
