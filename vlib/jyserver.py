# Runs under Jython (Python 2.7): executes scripts on request. One JSON object per line on stdin, one per line on the original stdout.
import sys, os, json, traceback
from StringIO import StringIO
inp, outp = sys.stdin, sys.stdout
sys.path.append(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "jystubs"))
codes = {}
import __builtin__
opened, real_open = [], open


def open_(*args):
    f = real_open(*args)
    opened.append(f)
    return f


__builtin__.open = open_    # CPython closes the files that a script leaves open
print >>outp, "ready"
outp.flush()
while True:
    line = inp.readline()
    if not line:
        break
    q = json.loads(line)
    path = q["script"].encode("utf-8")
    if path not in codes:
        codes[path] = compile(open(path).read(), path, "exec")
    if q.get("path"):
        sys.path[0] = q["path"].encode("utf-8")
    out, err = StringIO(), StringIO()
    rc = 0
    sys.argv = [a.encode("utf-8") for a in q["argv"]]
    sys.stdout, sys.stderr, sys.stdin = out, err, StringIO(q.get("stdin", "").encode("utf-8"))
    try:
        try:
            exec codes[path] in {"__name__": "__main__", "__file__": path}
        except SystemExit, e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except:
            rc = 1
            err.write(traceback.format_exc())
    finally:
        while opened:
            opened.pop().close()
        sys.stdout, sys.stderr, sys.stdin = outp, sys.__stderr__, inp
    def text(x):
        x = x.getvalue()
        return x if isinstance(x, unicode) else x.decode("latin-1")
    print >>outp, json.dumps({"rc": rc, "out": text(out), "err": text(err)})
    outp.flush()
