from vlib.engine import Case, mh
from vlib.mpimodel import Prog, sgn, exp_fail
from vlib import gen

RULE = ("Dividends are random, or built backwards as q*b + r from hostile quotient and divisor digit patterns (digits "
        "0, 1, B/2, B-2, B-1; remainders 0, 1, b-1), so that the quotient-digit estimate and the add-back step are "
        "exercised; all sign combinations, omitted outputs, all aliasings of an output with an operand, dirty outputs. "
        "Quotient, remainder and untouched operands are compared with exact arithmetic. Distinct by hash of all commands.")


def model(a, b):
    q = a // b
    return q, abs(a - q * b)


def digits(rng, n, w=64):
    B = 1 << w
    pal = (0, 0, 1, 2, B - 1, B - 1, B - 2, B // 2, B // 2 - 1, B // 2 + 1, rng.getrandbits(w))
    v = 0
    for _ in range(n):
        v = v * B + rng.choice(pal)
    return v


def pair(rng, ctx):
    k = rng.random()
    maxd = rng.choice((2, 3, 4, 6, 10, 20, 60))
    if k < 0.5:
        w = rng.choice((64, 64, 64, 32, 8))
        b = digits(rng, rng.randrange(1, maxd + 1), w) or 1
        b >>= rng.choice((0, 0, 1, 5, 63)) if b >> 63 else 0
        b = b or 1
        q = digits(rng, rng.randrange(0, maxd + 1), w)
        r = rng.choice((0, 1, b - 1, b - 2, b // 2, rng.randrange(b), digits(rng, maxd, w) % b)) % b
        a = q * b + r
        if rng.random() < 0.1:
            a = max(0, a - 1)
    elif k < 0.8:
        a = gen.magnitude(rng, gen.bits_size(rng, 64 * maxd, ctx["consts"]))
        b = gen.magnitude(rng, gen.bits_size(rng, 64 * maxd, ctx["consts"]))
    else:
        a = gen.magnitude(rng, gen.bits_size(rng, 64 * maxd, ctx["consts"]))
        b = abs(gen.related(rng, a, 64 * maxd))
    if rng.random() < 0.4:
        a = -a
    if rng.random() < 0.35:
        b = -b
    return a, b


def one(rng, ctx):
    p = Prog(rng, 4, 600, ctx["consts"])
    c = p.case
    for _ in range(rng.randrange(1, 4)):
        a, b = pair(rng, ctx)
        # registers 0: a, 1: b, 2 and 3: outputs with old content
        p.set(0, a)
        p.set(1, b)
        p.fresh(2)
        p.fresh(3)
        absop = rng.random() < 0.3
        q, r = rng.choice(((2, 3), (2, 3), (2, 3), (0, 3), (1, 3), (2, 0), (2, 1), (0, 1), (1, 0),
                           (None, 3), (None, 0), (None, 1), (2, None), (0, None), (1, None), (None, None)))
        bb = 1
        if rng.random() < 0.05:
            bb, b = 0, a               # a / a, same object
            if q == 1 or r == 1:
                q, r = 2, 3
        op = "div_abs" if absop else "div"
        args = "%s %s 0 %d" % ("n" if q is None else q, "n" if r is None else r, bb)
        if b == 0:
            c.tag(op + "/zero divisor")
            c.c("%s %s" % (op, args), exp_fail)
            continue
        vq, vr = model(abs(a), abs(b)) if absop else model(a, b)
        c.tag("%s/%s/signs%d%d/%s" % (op, "q%s r%s" % (q, r), sgn(a), sgn(b), "rem0" if vr == 0 else "rem"),
              "%s/digits %d by %d" % (op, min(9, (abs(a).bit_length() + 63) // 64), min(9, (abs(b).bit_length() + 63) // 64)))
        c.c("%s %s" % (op, args), "0")
        if q is not None:
            p.v[q] = vq
        if r is not None:
            p.v[r] = vr
        p.all()
        if rng.random() < 0.2 and not absop and b > 0 and bb == 1 and q != 1 and r != 1:
            p.set(0, a)
            c.c("mod 3 0 1", "0")
            p.v[3] = vr
            p.get(3)
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        yield one(rng, ctx)


def huge(rng, w, count, ctx):
    """Dividends of more than 2^16 digits (short divisors, and divisors of nearly their size)."""
    D = 64 * 65536
    for i in range(ctx["n"]):
        p = Prog(rng, 4, D, ctx["consts"])
        c = p.case
        n = D + rng.choice((0, 1, 64 * rng.randrange(1, 900), -64 * rng.randrange(1, 900)))
        a = rng.getrandbits(n) | 1 << (n - 1)
        b = rng.choice((3, 2**64 - 1, 2**63, rng.getrandbits(64) | 1, rng.getrandbits(130) | 1 << 129, rng.getrandbits(1000) | 1 << 999,
                        rng.getrandbits(n - 64 * 20) | 1 << (n - 1300), a - 1, a + 1, 1 << (n - 1)))
        a, b = a * rng.choice((1, 1, -1)), b * rng.choice((1, 1, -1))
        p.set(0, a)
        p.set(1, b)
        c.c("div 2 3 0 1", "0")
        p.v[2], p.v[3] = model(a, b)
        p.get(2)
        p.get(3)
        c.tag("huge")
        yield c


def check(run):
    n = 25000 if run.tier == "quick" else 150000
    run.sweep(cases, run.bins("asan", "rel"), n, batch=500)
    run.sweep(huge, run.bins("rel"), 0, cpu=120, batch=4, ctx={"n": 2 if run.tier == "quick" else 20}, label="huge")
    return run.finish("exploration", RULE, ["operands up to 120 digits (7680 bits) densely, a few dividends beyond 65536 digits",
                                            "the Python integer arithmetic used as reference is right"],
                      require=("huge", "div/zero divisor", "div_abs/zero divisor"))
