"""C34: Boolean operations of the decision diagram package."""
from vlib import pbt, dd, build


class P(pbt.Prop):
    id = "C34"
    variants = ["h_dd"]
    quick_cases = 40000
    thorough_cases = 800000
    rule = ("a case counts if its program has more than 8 operations on functions of 2 to 9 variables, including garbage collections and "
            "reorderings; distinct by the text of the program")
    names = dd.group("enum") * 3 + dd.BASIC * 2

    def setup(self, ctx):
        self.server = dd.Server(ctx.builds["h_dd"], ctx.scratch)

    def teardown(self, ctx):
        self.server.stop()

    def gen(self, tc):
        return dd.gen_program(tc, self.names)

    def render(self, p):
        return dd.text(p)

    def check(self, p, ctx):
        st = dd.check_program(p, self.server)
        return {"key": dd.text(p), "nontrivial": len(p.lines) > 8, "labels": set(l[0] for l in p.lines)}

    def known_findings(self, ctx):
        yield "clauses-order", dd.run_known(self.server, "case 6 0 256 262144 6\ntt 1 fffffffffffffffd\nm_shuffle 6 1 2 4 3 0 5\nclauses 1 1\nend\n") is None
        r = dd.run_known(self.server, "case 3 0 256 262144 6\ntt 0 3535353535353535\nprimes 0 0\nend\n")
        yield "primes-redundant", r is None or len(r[1].split()) > 2


PROP = P()
