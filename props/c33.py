"""C33: Boolean operations of the decision diagram package."""
from vlib import pbt, dd, build


class P(pbt.Prop):
    id = "C33"
    variants = ["h_dd"]
    quick_cases = 40000
    thorough_cases = 800000
    rule = ("a case counts if its program has more than 8 operations on functions of 2 to 9 variables, including garbage collections and "
            "reorderings; distinct by the text of the program")
    names = dd.group("quant") * 3 + dd.BASIC * 2

    def setup(self, ctx):
        self.server = dd.Server(ctx.builds["h_dd"], ctx.scratch)

    def teardown(self, ctx):
        self.server.stop()

    def gen(self, tc):
        return dd.gen_program(tc, self.names)

    def render(self, p):
        return dd.text(p)

    def check(self, p, ctx):
        st = dd.check_program(p, self.server)
        return {"key": dd.text(p), "nontrivial": len(p.lines) > 8, "labels": set(l[0] for l in p.lines)}


PROP = P()
