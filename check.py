#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--replay FILE] [--cases N] [--workers N] [--index I]

Runs the check of one property against /repo's working tree. Exit 0: held on everything explored. Exit 1 with a
VIOLATION line: broken. Exit 2: the check itself failed (build error, harness error)."""
import os, sys, json, time, importlib, shutil, tempfile, argparse

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import pbt, build

VERIF = os.path.dirname(os.path.abspath(__file__))


def load_known(pid):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                r.append(line)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--index", type=int)
    ap.add_argument("--show", type=int, help="print the first N generated cases and exit")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    modname = "props." + a.prop.lower()
    prop = importlib.import_module(modname).PROP
    if a.show:
        for i in range(a.show):
            case, ch = pbt.make_case(prop, seed, i)
            print("---- case %d (%d decisions)" % (i, len(ch)))
            print(prop.render(case))
        return 0
    try:
        builds = {v: build.build(v) for v in prop.variants}
    except build.BuildError as e:
        print("ERROR building: %s" % e)
        return 2
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop.id)
    os.chmod(scratch, 0o755)
    try:
        return run(prop, modname, a, seed, tier, builds, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        try:
            build.prune()
        except Exception:
            pass


def evidence(prop, tier, seed, stats, t0, tb, violations, known=0):
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": len(stats["keys"]),
            "rule": prop.rule,
            "samples": stats["samples"][:6],
            "classes": dict(sorted(stats["labels"].items())),
            "build_s": round(tb, 1),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 1),
        "violations": violations,
    }
    if known:
        ev["coverage"]["known_findings"] = known
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(p + ".tmp", p)


def run(prop, modname, a, seed, tier, builds, scratch, t0, tb):
    nw = a.workers or prop.workers or os.cpu_count() or 8
    mk = lambda name: (os.makedirs(os.path.join(scratch, name), exist_ok=True),
                       pbt.Ctx(os.path.join(scratch, name), builds, seed, tier))[1]
    if a.replay or a.index is not None:
        ctx = mk("replay")
        prop.setup(ctx)
        if a.replay:
            rp = json.load(open(a.replay))
            tc = pbt.TC(prefix=rp["choices"])
            tc.index = -1
            case = prop.gen(tc)
        else:
            case, _ = pbt.make_case(prop, seed, a.index)
        print(prop.render(case))
        info, msg = pbt.run_case(prop, case, ctx)
        if msg is not None:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop.id, a.replay or "index-%d" % a.index))
            return 1
        print("held: %r" % (info,))
        return 0

    # known findings: each is evaluated on its own recorded input
    nknown = 0
    if hasattr(prop, "known_findings"):
        ctx = mk("known")
        prop.setup(ctx)
        listed = load_known(prop.id)
        for tag, still in prop.known_findings(ctx):
            lines = [l for l in listed if "[%s]" % tag in l]
            if still and lines:
                print(lines[0])
                nknown += 1
        if hasattr(prop, "teardown"):
            prop.teardown(ctx)

    total = a.cases or (prop.quick_cases if tier == "quick" else prop.thorough_cases)
    stats = pbt.run_all(modname, prop, seed, tier, builds, scratch, total, nw)
    if stats["error"]:
        print("ERROR in the check: %s" % stats["error"])
        evidence(prop, tier, seed, stats, t0, tb, 0, nknown)
        return 2
    if stats["failure"]:
        idx, choices, msg = stats["failure"]
        ctx = mk("shrink")
        prop.setup(ctx)
        small, smsg = pbt.shrink(prop, choices, ctx)
        # replay three times before reporting
        ok = 0
        for cand in (small, choices):
            ok = 0
            for _ in range(3):
                tc = pbt.TC(prefix=cand)
                tc.index = -1
                case = prop.gen(tc)
                _, m = pbt.run_case(prop, case, ctx)
                if m is not None:
                    ok += 1
                    msg = m
            if ok == 3:
                small = cand
                break
        if ok == 0:
            print("ERROR: case %d failed once but not on replay: %s" % (idx, msg))
            evidence(prop, tier, seed, stats, t0, tb, 0, nknown)
            return 2
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % prop.id)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            json.dump({"property": prop.id, "seed": seed, "index": idx, "choices": small, "message": msg,
                       "case": prop.render(case)}, f, indent=1)
        evidence(prop, tier, seed, stats, t0, tb, 1, nknown)
        print("case %d, shrunk from %d to %d decisions (replays: ./check.py %s --replay %s)" %
              (idx, len(choices), len(small), prop.id, rp))
        print(prop.render(case))
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop.id, rp))
        return 1
    try:
        prop.final(stats, None)
    except pbt.Violation as v:
        print("ERROR: %s" % v)
        evidence(prop, tier, seed, stats, t0, tb, 0, nknown)
        return 2
    evidence(prop, tier, seed, stats, t0, tb, 0, nknown)
    print("property %s held: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" %
          (prop.id, stats["evaluations"], len(stats["keys"]), time.time() - t0, tb))
    print("classes: %s" % json.dumps(dict(sorted(stats["labels"].items()))))
    return 0


if __name__ == "__main__":
    sys.exit(main())
