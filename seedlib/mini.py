"""Small stand-alone helpers for the demonstrations: evaluate a slugsin specification and judge slugs' output."""
import os, re, subprocess, sys, tempfile, shutil, itertools

SLUGS = os.path.abspath("src/slugs")
TMP = tempfile.mkdtemp(prefix="demo")


def fail(msg):
    print("FAIL: " + msg)
    shutil.rmtree(TMP, ignore_errors=True)
    sys.exit(1)


def ok():
    shutil.rmtree(TMP, ignore_errors=True)
    print("ok")
    sys.exit(0)


def write(name, text):
    p = os.path.join(TMP, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def run(*args, **kw):
    r = subprocess.run([SLUGS] + list(args), input=kw.get("input", ""), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True, timeout=120, cwd=TMP)
    return r


def verdict(r):
    if "Specification is realizable" in r.stderr:
        return True
    if "Specification is unrealizable" in r.stderr:
        return False
    fail("no verdict: " + r.stderr[-300:])


class Spec:
    def __init__(self, text):
        self.sec, cur = {}, None
        for l in text.splitlines():
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            if l.startswith("["):
                cur = l[1:-1]
            else:
                self.sec.setdefault(cur, []).append(l)
        self.I, self.O = self.sec.get("INPUT", []), self.sec.get("OUTPUT", [])
        self.V = self.I + self.O

    def f(self, formula, pre, post):
        toks = formula.split()
        mem = []

        def p():
            t = toks.pop(0)
            if t == "!":
                return not p()
            if t in "&|^" and len(t) == 1:
                a = p()
                b = p()
                return (a and b) if t == "&" else (a or b) if t == "|" else (a != b)
            if t in ("0", "1"):
                return t == "1"
            if t == "$":
                n = int(toks.pop(0))
                mem.append([])
                for _ in range(n):
                    v = p()
                    mem[-1].append(v)
                return mem.pop()[-1]
            if t == "?":
                return mem[-1][int(toks.pop(0))]
            return bool(post[t[:-1]]) if t.endswith("'") else bool(pre[t])
        v = p()
        assert not toks
        return v

    def all(self, section, pre, post):
        return all(self.f(x, pre, post) for x in self.sec.get(section, []))

    def vals(self, names):
        for c in itertools.product([0, 1], repeat=len(names)):
            yield dict(zip(names, c))


def parse(out):
    nodes, cur = {}, None
    for l in out.splitlines():
        m = re.match(r"State (\d+) with rank (\S+) -> <(.*)>", l)
        if m:
            cur = int(m.group(1))
            v = dict((a.strip().split(":")[0], int(a.strip().split(":")[1])) for a in m.group(3).split(",") if a.strip())
            nodes[cur] = [v, m.group(2), []]
        elif "With successors :" in l or "With no successors" in l:
            nodes[cur][2] = [int(x) for x in l.split(":", 1)[1].split(",") if x.strip()] if ":" in l else []
    return nodes


def cyc(adj):
    """strongly connected components with at least one edge, as lists of edges"""
    import collections
    reach = {}
    for v in adj:
        seen, todo = set(), list(adj[v])
        while todo:
            w = todo.pop()
            if w not in seen:
                seen.add(w)
                todo += adj.get(w, [])
        reach[v] = seen
    done, r = set(), []
    for v in adj:
        if v in done or v not in reach[v]:
            continue
        comp = {w for w in reach[v] if v in reach.get(w, ())}
        done |= comp
        r.append([(a, b) for a in comp for b in adj[a] if b in comp])
    return r


def check_strategy(sp, nodes, recovery=False):
    adj = {}
    for n, (v, r, succ) in nodes.items():
        seen = []
        for t in succ:
            if t not in nodes:
                fail("successor %d does not exist" % t)
            w = nodes[t][0]
            if not sp.all("SYS_TRANS", v, w):
                fail("unsafe transition %s -> %s" % (v, w))
            if not recovery and not sp.all("ENV_TRANS", v, w):
                fail("transition for an input the assumptions exclude: %s -> %s" % (v, w))
            seen.append({i: w[i] for i in sp.I})
        for i in sp.vals(sp.I):
            post = dict(i)
            if sp.all("ENV_TRANS", v, post) and i not in seen:
                fail("no answer to input %s in state %s" % (i, v))
        adj[n] = [t for t in succ if sp.all("ENV_TRANS", v, nodes[t][0])]
    for g in sp.sec.get("SYS_LIVENESS", []):
        a = {n: [t for t in s if not sp.f(g, nodes[n][0], nodes[t][0])] for n, s in adj.items()}
        for es in cyc(a):
            if all(any(sp.f(h, nodes[x][0], nodes[y][0]) for x, y in es) for h in sp.sec.get("ENV_LIVENESS", [])):
                fail("a play satisfies all assumptions but not the guarantee %s: %s" % (g, es))
