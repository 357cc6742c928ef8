"""C38: algebraic decision diagrams."""
from vlib import pbt, dd, dd_add


class P(pbt.Prop):
    id = "C38"
    variants = ["h_dd"]
    quick_cases = 40000
    thorough_cases = 800000
    rule = ("a case counts if its program has more than 8 operations on functions of 2 to 6 variables with real values, including garbage "
            "collections and reorderings; distinct by the text of the program")

    def setup(self, ctx):
        self.server = dd.Server(ctx.builds["h_dd"], ctx.scratch)

    def teardown(self, ctx):
        self.server.stop()

    def gen(self, tc):
        return dd_add.gen_program(tc)

    def render(self, p):
        return dd.text(p)

    def check(self, p, ctx):
        dd.check_program(p, self.server, dd_add.extra)
        return {"key": dd.text(p), "nontrivial": len(p.lines) > 8, "labels": set(l[0] for l in p.lines)}


PROP = P()
