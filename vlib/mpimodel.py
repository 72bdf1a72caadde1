"""Random programs over big-integer registers, with the exact model values."""
from .engine import Case, mh
from . import gen


def sgn(v):
    return (v > 0) - (v < 0)


def exp_sign(want):
    def f(o):
        try:
            v = int(o)
        except ValueError:
            return "no number"
        return None if sgn(v) == want else "wrong order, expected %d" % want
    return f


def exp_fail(o):
    return None if o.lstrip("-").isdigit() and int(o) != 0 else "an error was to be reported"


class Prog:
    """A case under construction: register values of the model follow the commands."""

    def __init__(self, rng, nreg, maxbits, consts=(), neg=0.4):
        self.rng, self.n, self.maxbits, self.consts, self.neg = rng, nreg, maxbits, consts, neg
        self.case = Case()
        self.v = [0] * nreg
        fill = rng.choice((0, 0xA5, 0xFF, 0x01))
        self.case.c("fill %d" % fill)

    def set(self, i, val, slack=None):
        if slack is None:
            slack = self.rng.choice((0, 0, 1, 2, 7, 40))
        self.case.c("ms %d %s %d" % (i, mh(val), slack))
        self.v[i] = val

    def fresh(self, i):
        r = self.rng
        if r.random() < 0.35 and any(self.v):
            self.set(i, gen.related(r, r.choice(self.v), self.maxbits))
        else:
            self.set(i, gen.integer(r, self.maxbits, self.consts, self.neg))

    def get(self, i):
        self.case.c("mg %d" % i, mh(self.v[i]))

    def res(self, cmd, dst, val, ret="0"):
        self.case.c(cmd, ret)
        self.v[dst] = val
        self.get(dst)

    def all(self):
        for i in range(self.n):
            self.get(i)

    def reg(self):
        return self.rng.randrange(self.n)

    def szclass(self, *vals):
        n = min((abs(v).bit_length() + 63) // 64 for v in vals)
        return "d0" if n == 0 else "d1" if n == 1 else "d<=8" if n <= 8 else "d<=64" if n <= 64 else \
            "d<=300" if n <= 300 else "d>300"

    def alias(self, r, *ops):
        return "".join("=" if r == o else "." for o in ops) + ("s" if len(ops) > 1 and ops[0] == ops[1] else "")
