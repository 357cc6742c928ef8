"""C32: Boolean operations of the decision diagram package."""
from vlib import pbt, dd, build


class P(pbt.Prop):
    id = "C32"
    variants = ["h_dd"]
    quick_cases = 40000
    thorough_cases = 800000
    rule = ("a case counts if its program has more than 8 operations on functions of 2 to 9 variables, including garbage collections and "
            "reorderings; distinct by the text of the program")
    names = dd.group("bool") * 2 + dd.group("min") + dd.BASIC * 2

    def setup(self, ctx):
        self.server = dd.Server(ctx.builds["h_dd"], ctx.scratch)

    def teardown(self, ctx):
        self.server.stop()

    def gen(self, tc):
        return dd.gen_program(tc, self.names)

    def render(self, p):
        return dd.text(p)

    def check(self, p, ctx):
        st = dd.check_program(p, self.server)
        return {"key": dd.text(p), "nontrivial": len(p.lines) > 8, "labels": set(l[0] for l in p.lines)}

    def known_findings(self, ctx):
        r = dd.run_known(self.server, "case 7 0 2 262144 6\ntt 2 5e19e4cf2681fa287cdeef8c146fdc17\nm_auto 1 4\nm_next 15\ndecomp 3 4 2 5\nend\n")
        yield "decomp-leak", r is None or "zeroref 0 zeroref2 0" not in r[-1]


PROP = P()
