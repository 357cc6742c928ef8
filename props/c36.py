"""C36: variable reordering."""
from vlib import pbt, dd, dd_reord


class P(pbt.Prop):
    id = "C36"
    variants = ["h_dd"]
    quick_cases = 25000
    thorough_cases = 800000
    rule = ("a case counts if its program reorders variables at least once among more than 5 operations on functions of 2 to 7 variables; "
            "distinct by the text of the program")

    def setup(self, ctx):
        self.server = dd.Server(ctx.builds["h_dd"], ctx.scratch)

    def teardown(self, ctx):
        self.server.stop()

    def gen(self, tc):
        return dd_reord.gen_program(tc, dd.BASIC + dd.group("bool"))

    def render(self, p):
        return dd.text(p)

    def check(self, p, ctx):
        dd.check_program(p, self.server, dd_reord.extra)
        return {"key": dd.text(p), "nontrivial": len(p.lines) > 5 and any(l[0] == "m_reorder2" for l in p.lines), "labels": set(l[0] if l[0] != "m_reorder2" else dd_reord.NAMES[l[1]] for l in p.lines)}


PROP = P()
