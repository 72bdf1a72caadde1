"""Long data in one call against the same data in short calls (see the driver's `long`)."""
from vlib.engine import Case


class Same:
    """The results of the commands at the indices must be equal in pairs."""
    def __init__(self, pairs):
        self.pairs = pairs

    def __call__(self, o):
        for i, j in self.pairs:
            if o[i] != o[j]:
                return "one long call and short calls continue differently: %s / %s" % (o[i][:80], o[j][:80])


def pair(rng, setup, op, n, after, tag):
    """setup/after: commands with %d for the slot; op: ei, eo, di, do, ei8 ... or up."""
    c = Case("long/" + tag)
    for s in (0, 1):
        for x in setup:
            c.c(x % s)
    c.c("long 0 1 %s %d %d" % (op, n, rng.randrange(1, 1 << 30)), ".")
    prs = []
    for x in after:
        k = len(c.cmds)
        c.c(x % 0).c(x % 1)
        prs.append((k, k + 1))
    c.final = Same(prs)
    return c


def sizes(rng, unit, extra=()):
    """Lengths beyond 2^16 bytes and 2^16 units, and powers of two."""
    r = [65536, 1 << rng.randrange(17, 21), 65536 + unit * rng.randrange(1, 40), 65536 * 2 + unit * rng.randrange(1, 9), 65536 * unit + unit * rng.randrange(1, 9)]
    return r + list(extra)
