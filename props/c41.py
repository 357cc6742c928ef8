"""C41: the wrapper layer around the decision diagram package (src/BFAbstractionLibrary)."""
from vlib import pbt, dd, bf


class P(pbt.Prop):
    id = "C41"
    variants = ["h_bf"]
    quick_cases = 50000
    thorough_cases = 800000
    rule = ("a case counts if its program has more than 8 operations on functions of 2 to 6 variables in two managers; distinct by the "
            "text of the program")

    def setup(self, ctx):
        self.server = dd.Server(ctx.builds["h_bf"], ctx.scratch)

    def teardown(self, ctx):
        self.server.stop()

    def gen(self, tc):
        return bf.gen_program(tc)

    def render(self, p):
        return bf.text(p)

    def check(self, p, ctx):
        st = bf.check_program(p, self.server)
        return {"key": bf.text(p), "nontrivial": len(p.lines) > 8, "labels": st}


PROP = P()
