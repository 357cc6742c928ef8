"""C37: numbers of the decision diagram package."""
from vlib import pbt, dd, dd_num


class P(pbt.Prop):
    id = "C37"
    variants = ["h_dd"]
    quick_cases = 40000
    thorough_cases = 1500000
    rule = "a case counts if it has more than 2 operations; distinct by the text of the program"

    def setup(self, ctx):
        self.server = dd.Server(ctx.builds["h_dd"], ctx.scratch)

    def teardown(self, ctx):
        self.server.stop()

    def gen(self, tc):
        return dd_num.gen_program(tc)

    def render(self, p):
        return dd.text(p)

    def check(self, p, ctx):
        dd.check_program(p, self.server, dd_num.extra)
        return {"key": dd.text(p), "nontrivial": len(p.lines) > 2, "labels": set(" ".join(str(x) for x in l[:2]) if l[0] in ("n_apa", "n_epd") else l[0] for l in p.lines)}


PROP = P()
