"""mk(id, property, needs, breaks, [(file, old, new)], demo_python): writes /verif/seeded/<id>/."""
import os, subprocess, json, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))


def mk(id, prop, needs, breaks, edits, demo, extra=()):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mk")
    try:
        subprocess.run(["git", "clone", "-q", os.environ.get("VP_REPO", "/repo"), w], check=True)
        for f, old, new in edits:
            p = w + "/" + f
            b = open(p, newline="").read()
            assert b.count(old) == 1, (f, b.count(old), old)
            open(p, "w", newline="").write(b.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        shutil.rmtree(w)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
                                    "from mini import *\n" + demo)
    shutil.copy(HERE + "/mini.py", d + "/mini.py")
    for n in extra:
        shutil.copy(n, d)


def mkc(id, prop, needs, breaks, edits, prog):
    """like mk, with a C program that is linked against the CUDD library of the build"""
    mk(id, prop, needs, breaks, edits, "")
    d = "/verif/seeded/" + id
    for n in ("demo.py", "mini.py"):
        os.remove(d + "/" + n)
    open(d + "/demo.c", "w").write(prog)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
H="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d); trap '/bin/rm -rf "$T"' EXIT
L=$PWD/lib/cudd-3.0.0
gcc -w -DHAVE_IEEE_754 -DSIZEOF_VOID_P=8 -DSIZEOF_LONG=8 -I$L -I$L/cudd -I$L/mtr -I$L/epd -I$L/st -I$L/util -I$L/dddmp "$H/demo.c" $L/dddmp/.libs/libdddmp.a $L/cudd/.libs/libcudd.a -lm -o $T/demo || exit 3
cd $T && timeout 200 ./demo
''')
