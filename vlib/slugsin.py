"""Reference reader of the slugsin format (from its documentation): text -> Spec, or FormatError."""
import re
from . import gr1

SPACE = " \t\n\v\f\r"
ALLOWED = {"ENV_INIT": ("I",), "SYS_INIT": ("I", "O"), "ENV_TRANS": ("I", "O", "I'"), "SYS_TRANS": ("I", "O", "I'", "O'"),
           "ENV_LIVENESS": ("I", "O", "I'", "O'"), "SYS_LIVENESS": ("I", "O", "I'", "O'")}


class FormatError(Exception):
    pass


def formula(line, names, allowed):
    toks = re.split("[%s]+" % re.escape(SPACE), line.strip(SPACE))
    pos = [0]

    def nxt():
        if pos[0] >= len(toks) or toks[pos[0]] == "":
            raise FormatError("premature end")
        pos[0] += 1
        return toks[pos[0] - 1]

    def num():
        t = nxt()
        if not re.fullmatch("[0-9]+", t):
            raise FormatError("number expected")
        return int(t)

    def rec(mem):
        t = nxt()
        if t in ("&", "|", "^"):
            a = rec(mem)
            b = rec(mem)
            return (t, a, b)
        if t == "!":
            return ("!", rec(mem))
        if t in ("0", "1"):
            return (t,)
        if t == "$":
            n = num()
            if n == 0:
                raise FormatError("empty buffer")
            m = []
            for _ in range(n):
                m.append(rec(m))
            return ("$", m)
        if t == "?":
            n = num()
            if n >= len(mem):
                raise FormatError("not stored")
            return ("?", n)
        if t not in names:
            raise FormatError("unknown variable")
        if names[t] not in allowed:
            raise FormatError("variable type")
        return gr1.V(t[:-1], True) if names[t].endswith("'") else gr1.V(t)
    f = rec([])
    if pos[0] != len(toks):
        raise FormatError("stray characters")
    return f


def parse(text):
    sp = gr1.Spec([], [])
    names = {}
    mode = None
    dup = False
    for line in text.split("\n"):
        line = line.strip(SPACE)
        if not line or line[0] == "#":
            continue
        if line[0] == "[":
            if line[1:-1] not in ["INPUT", "OUTPUT"] + gr1.SECTIONS or line[-1] != "]":
                raise FormatError("category")
            mode = line[1:-1]
        elif mode is None:
            raise FormatError("no category")
        elif mode in ("INPUT", "OUTPUT"):
            t = mode[0]
            for n, k in ((line, t), (line + "'", t + "'")):
                if n in names:
                    dup = True
                else:
                    names[n] = k
            (sp.inputs if t == "I" else sp.outputs).append(line)
        else:
            getattr(sp, mode).append(formula(line, names, ALLOWED[mode]))
    if dup:
        raise FormatError("duplicate variable")
    return sp
