"""C04: --simpleRecovery adds the recovery transitions and keeps the strategy winning."""
from props import c02


class P(c02.P):
    id = "C04"
    quick_cases = 24000
    recovery = True
    rule = ("as C02 with --simpleRecovery: initial states are all winning positions allowed by the system's initial constraints, "
            "every next input (also a disallowed one) that admits a safe move to a winning position is answered, all listed states "
            "are winning, and plays with finitely many assumption faults satisfy the specification; non-trivial: the strategy "
            "answers at least one input that the safety assumptions exclude")


PROP = P()
