"""C35: exporting and importing decision diagrams."""
from vlib import pbt, dd, dd_add, dd_io


class P(pbt.Prop):
    id = "C35"
    variants = ["h_dd"]
    quick_cases = 30000
    thorough_cases = 800000
    rule = ("a case counts if its program exports or imports at least once among more than 5 operations on functions of 2 to 7 variables; "
            "distinct by the text of the program")

    def setup(self, ctx):
        self.server = dd.Server(ctx.builds["h_dd"], ctx.scratch)

    def teardown(self, ctx):
        self.server.stop()

    def gen(self, tc):
        return dd.gen_program(tc, dd.BASIC + ["copy", "var", "const"], big=10, length=20, extra=dd_io.gen_io)

    def render(self, p):
        return dd.text(p)

    def check(self, p, ctx):
        dd.check_program(p, self.server, dd_io.extra)
        return {"key": dd.text(p), "nontrivial": len(p.lines) > 5 and any(l[0].startswith("i_") for l in p.lines), "labels": set(l[0] for l in p.lines)}


PROP = P()
