"""C42: memory safety of the decision diagram package and the layer on top of it."""
from vlib import pbt, dd, dd_add, dd_zdd, dd_reord, dd_io, dd_num, bf
from props import c32, c33, c34, c38, c39
from vlib.pbt import Violation


class P(pbt.Prop):
    id = "C42"
    variants = ["h_dd_asan", "h_bf_asan"]
    quick_cases = 12000
    thorough_cases = 300000
    rule = ("the operation sequences of the checks C32-C36, C38, C39 and C41 (functions of 2 to 9 variables, values, families, reordering, import "
            "and export), executed with AddressSanitizer and UndefinedBehaviorSanitizer, and every allocated block counted; a case counts if "
            "its program has more than 8 operations; distinct by the text of the program")

    def setup(self, ctx):
        self.server = dd.Server(ctx.builds["h_dd_asan"], ctx.scratch, 120)
        self.server2 = dd.Server(ctx.builds["h_bf_asan"], ctx.scratch, 120)

    def teardown(self, ctx):
        self.server.stop()
        self.server2.stop()

    GENS = {"bool": lambda tc: dd.gen_program(tc, c32.P.names), "quant": lambda tc: dd.gen_program(tc, c33.P.names),
            "count": lambda tc: dd.gen_program(tc, c34.P.names), "add": c38.P.gen, "zdd": c39.P.gen,
            "num": dd_num.gen_program,
            "reorder": lambda tc: dd_reord.gen_program(tc, dd.BASIC + dd.group("bool")),
            "io": lambda tc: dd.gen_program(tc, dd.BASIC + ["copy", "var", "const"], big=10, length=20, extra=dd_io.gen_io), "bf": bf.gen_program}

    def gen(self, tc):
        kind = tc.weighted([(3, "bool"), (2, "quant"), (3, "count"), (3, "add"), (4, "zdd"), (3, "reorder"), (1, "num"), (4, "io"), (3, "bf")])
        g = self.GENS[kind]
        return kind, (g(PROP, tc) if kind in ("add", "zdd") else g(tc))

    def render(self, c):
        return bf.text(c[1]) if c[0] == "bf" else dd.text(c[1])

    def check(self, c, ctx):
        kind, p = c
        t = self.render(c)
        out = (self.server2 if kind == "bf" else self.server).run(t)
        w = out[-1].split()
        n = int(w[w.index("blocks") + 1])
        if n:
            raise Violation("%d memory blocks are %s when the managers have been released" %
                            (abs(n), "still allocated" if n > 0 else "released too often"))
        return {"key": t, "nontrivial": len(p.lines) > 8, "labels": [kind]}


PROP = P()
