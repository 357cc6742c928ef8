"""C39: zero-suppressed decision diagrams."""
from vlib import pbt, dd, dd_zdd


class P(pbt.Prop):
    id = "C39"
    variants = ["h_dd"]
    quick_cases = 40000
    thorough_cases = 800000
    rule = ("a case counts if its program has more than 8 operations on families of sets over 2 to 8 variables, including garbage "
            "collections and reorderings; distinct by the text of the program")

    def setup(self, ctx):
        self.server = dd.Server(ctx.builds["h_dd"], ctx.scratch)

    def teardown(self, ctx):
        self.server.stop()

    def gen(self, tc):
        return dd_zdd.gen_program(tc)

    def render(self, p):
        return dd.text(p)

    def check(self, p, ctx):
        dd.check_program(p, self.server, dd_zdd.extra)
        return {"key": dd.text(p), "nontrivial": len(p.lines) > 8, "labels": set(l[0] for l in p.lines)}

    def known_findings(self, ctx):
        s = dd.Server(ctx.builds["h_dd"], ctx.scratch, timeout=3)
        try:
            r = dd.run_known(s, "case 3 3 16 8 6\ntt 0 00000000000000c7\ntt 1 000000000000006f\nz_sets 0 100001\nz_sets 1 0\nz_sets 2 01000001\n"
                             "z_one 3 0\nm_gc\nm_zreorder 7 0\nend\n")
        finally:
            s.stop()
        yield "zdd-symm-sift", r is None


PROP = P()
