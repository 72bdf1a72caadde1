from vlib.engine import Case, mh
from vlib import gen
from vlib.ref import ec, num

RULE = ("Small curves over fields of 5 to 200 elements: every pair of points of some curves, random pairs of others, "
        "scalars 0..3*order and long scalars, all aliasings, infinity in several representations, dirty "
        "destinations; mid-size random curves; curves laid through two points chosen so that coordinates, their differences "
        "or the slope have zero, all-ones or single-bit digits; the eleven built-in curves with parameters compared with the published "
        "ones and scalars 0, 1, order and multiples +-small, runs of ones and zeros at window and digit borders, "
        "powers of two and random ones. Points are compared with an independent implementation (affine additions, "
        "Jacobian scalar products). Distinct by hash of all commands.")


def setp(c, rng, i, P):
    if P is None:
        x, y = rng.choice(((1, 1), (0, 0), (5, 3), (1, 0)))
        c.c("ps %d %x %x 0" % (i, x, y))
    else:
        c.c("ps %d %x %x 1" % (i, P[0], P[1]))


def isp(P):
    def f(o):
        x, y, z = o.split(",")
        if P is None:
            return None if z == "0" else "infinity expected"
        return None if o == "%x,%x,1" % P else "expected %x,%x,1" % P
    return f


def setg(c, rng, g, cv):
    a = cv.a
    if rng.random() < 0.15 and a:
        a -= cv.p
    G = cv.g or (1, 1)
    c.c("gset %d %x %s %x %x %x %x" % (g, cv.p, mh(a), cv.b, G[0], G[1], cv.n or 1))


def cls(cv, P, Q):
    if P is None or Q is None:
        return "inf" if P is None and Q is None else "inf1"
    if P == Q:
        return "order2" if P[1] == 0 else "same"
    return "inverse" if P[0] == Q[0] else "distinct"


def ops(c, rng, cv, pick, scal, steps, big=False):
    """A random sequence of point operations on registers 0..3."""
    regs = []
    for i in range(4):
        P = pick()
        if i and rng.random() < 0.3 and regs[0] is not None:
            P = rng.choice((regs[0], cv.neg(regs[0])))
        regs.append(P)
        setp(c, rng, i, P)
    for _ in range(steps):
        k = rng.random()
        r, a, b = rng.randrange(4), rng.randrange(4), rng.randrange(4)
        if k < 0.40:
            c.tag("add/%s/%d%d" % (cls(cv, regs[a], regs[b]), r == a, r == b))
            c.c("padd %d %d %d 0" % (r, a, b), "0")
            regs[r] = cv.add(regs[a], regs[b])
        elif k < 0.60:
            c.tag("dbl/%s/%d" % (cls(cv, regs[a], regs[a]), r == a))
            c.c("pdbl %d %d 0" % (r, a), "0")
            regs[r] = cv.add(regs[a], regs[a])
        elif k < 0.92:
            if big and rng.random() < 0.5:
                continue
            s = scal()
            c.tag("mul/alias%d/%s" % (r == a, "big" if big else "small"),
                  "mul/scalar bits %d" % min(s.bit_length(), 9) if s.bit_length() < 9 else
                  "mul/scalar %%64 = %d" % (s.bit_length() % 64))
            c.c("ms 5 %x %d" % (s, rng.choice((0, 2))))
            c.c("pmul %d %d 5 0" % (r, a), "0")
            c.c("mg 5", mh(s))
            regs[r] = cv.mul(s, regs[a])
        else:
            c.c("pcopy %d %d" % (r, a), "0")
            regs[r] = regs[a]
        c.c("pg %d" % r, isp(regs[r]))
    for i in range(4):
        c.c("pg %d" % i, isp(regs[i]))


def scalar(rng, nbits, n=None):
    k = rng.random()
    if n and k < 0.3:
        return max(0, n * rng.choice((1, 1, 2, 3, 16)) + rng.randrange(-17, 18))
    if k < 0.45:
        return rng.randrange(0, 40)
    if k < 0.55:
        return (1 << rng.randrange(0, nbits + 2)) + rng.choice((-1, 0, 0, 1))
    if k < 0.80:
        b = rng.randrange(1, nbits + 70)
        return gen.magnitude(rng, b)
    s = 0                                   # windows of four bits between zero runs
    while s.bit_length() < nbits:
        s = (s << rng.choice((1, 2, 3, 4, 5, 8, 60))) | rng.choice((0, 1, 7, 8, 9, 15, 14))
        if s == 0:
            s = 1
    return s


def g_small(rng, ctx):
    c = Case("small curve")
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    cv, pts = ec.small(rng)
    setg(c, rng, 0, cv)
    N = len(pts) + 1
    ops(c, rng, cv, lambda: None if rng.random() < 0.12 else rng.choice(pts),
        lambda: rng.choice((rng.randrange(0, 3 * N), scalar(rng, 140, N))), rng.randrange(4, 14))
    return c


def g_all(rng, ctx):
    """Every pair of points of one small curve, and every scalar for one point."""
    cv, pts = ec.small(rng, 5, 17)
    c = Case("all pairs of a small curve")
    setg(c, rng, 0, cv)
    allp = [None] + pts
    for P in allp:
        setp(c, rng, 0, P)
        for Q in allp:
            setp(c, rng, 1, Q)
            c.c("padd 2 0 1 0", "0")
            c.c("pg 2", isp(cv.add(P, Q)))
    P = rng.choice(pts)
    setp(c, rng, 0, P)
    Q = None
    for k in range(0, 3 * len(allp) + 20):
        c.c("ms 5 %x 0" % k)
        c.c("pmul 1 0 5 0", "0")
        c.c("pg 1", isp(Q))
        Q = cv.add(Q, P)
    return c


def g_mid(rng, ctx):
    c = Case("mid-size curve")
    b = rng.choice((16, 31, 32, 33, 48, 63, 64, 65, 80, 127, 128, 129))
    p = num.prime(rng, b)
    while True:
        x, y, a = rng.randrange(p), rng.randrange(p), rng.randrange(p)
        if rng.random() < 0.3:
            y = 0                           # a point of order two
        bb = (y * y - x ** 3 - a * x) % p
        if (4 * a ** 3 + 27 * bb * bb) % p:
            break
    cv = ec.Curve(p, a, bb)
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    setg(c, rng, 0, cv)

    def pick():
        k = rng.random()
        return None if k < 0.1 else (x, y) if k < 0.5 else cv.lift(rng)
    ops(c, rng, cv, pick, lambda: scalar(rng, b), rng.randrange(2, 7))
    if y == 0:
        c.tag("mid/order two")
    return c


def digits(rng, p):
    """A value below p whose digits (of 8 to 64 bits) are mostly zeros, ones or small."""
    w = rng.choice((8, 16, 32, 64, 64))
    n, v = -(-p.bit_length() // w), 0
    keep = rng.choice((0.1, 0.3, 0.6))
    for i in range(n):
        d = rng.getrandbits(w) if rng.random() < keep else rng.choice((0, 0, 0, 1, (1 << w) - 1, 1 << (w - 1)))
        v |= d << (w * i)
    return v % p


PRIMES = {}


def g_related(rng, ctx):
    """A curve through two points whose coordinates, their differences or the slope have special digits."""
    b = rng.choice((65, 96, 127, 128, 129, 160, 192, 255, 256, 257, 384, 521))
    l = PRIMES.setdefault(b, [])
    if len(l) < 3:
        l.append(num.prime(rng, b))
    p = rng.choice(l + [cv.p for cv in ec.CURVES])
    any_ = lambda: digits(rng, p) if rng.random() < 0.5 else rng.randrange(p)
    how = rng.randrange(7)
    x1, y1 = any_(), any_()
    if how == 0:                            # x differences
        x2, y2 = (x1 + rng.choice((1, -1)) * digits(rng, p)) % p, any_()
    elif how == 1:                          # y differences
        x2, y2 = any_(), (y1 + rng.choice((1, -1)) * digits(rng, p)) % p
    elif how == 2:                          # both
        x2, y2 = (x1 + digits(rng, p)) % p, (y1 - digits(rng, p)) % p
    elif how == 3:                          # a special slope and sum
        lam, x3 = digits(rng, p), digits(rng, p)
        x2 = (lam * lam - x1 - x3) % p
        y2 = (y1 + lam * (x2 - x1)) % p
    elif how == 4:                          # equal or opposite y, other x
        x2, y2 = any_(), rng.choice((y1, (p - y1) % p))
    elif how == 5:                          # 2y and y sums
        y1 = digits(rng, p) * pow(2, -1, p) % p
        x2, y2 = any_(), (digits(rng, p) - y1) % p
    else:
        x2, y2 = any_(), any_()
    if x1 == x2:
        return None
    a = ((y1 * y1 - x1 ** 3) - (y2 * y2 - x2 ** 3)) * pow(x1 - x2, -1, p) % p
    bb = (y1 * y1 - x1 ** 3 - a * x1) % p
    if (4 * a ** 3 + 27 * bb * bb) % p == 0:
        return None
    cv = ec.Curve(p, a, bb)
    c = Case("related/%s" % ("dx", "dy", "dxdy", "slope", "y", "2y", "any")[how])
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    setg(c, rng, 0, cv)
    P, Q = (x1, y1), (x2, y2)
    for A, B in ((P, Q), (Q, P), (P, cv.neg(Q)), (cv.neg(P), Q), (P, P), (Q, Q), (P, cv.neg(P)), (cv.neg(P), P), (Q, cv.neg(Q))):
        setp(c, rng, 0, A)
        setp(c, rng, 1, B)
        r = rng.choice((0, 1, 2))
        c.c("padd %d 0 1 0" % r, "0")
        c.c("pg %d" % r, isp(cv.add(A, B)))
    for A in (P, Q):
        setp(c, rng, 0, A)
        c.c("pdbl 1 0 0", "0").c("pg 1", isp(cv.add(A, A)))
    s = rng.randrange(1 << rng.randrange(1, 9))
    c.c("ms 5 %x 0" % s).c("pmul 1 0 5 0", "0").c("pg 1", isp(cv.mul(s, Q)))
    return c


def g_builtin(rng, ctx, i):
    g = i % 11
    cv = ec.CURVES[g]
    c = Case("builtin/" + ec.NAMES[g])
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    c.c("gload 0 %d" % g, "0")

    def same(o):
        v = o.split(",")
        try:
            p, a, b, x, y, z, n = [int(t, 16) for t in v]
        except ValueError:
            return "not canonical"
        if (p, a % p, b % p, (x, y), z, n) != (cv.p, cv.a, cv.b, cv.g, 1, cv.n):
            return "not the published parameters of " + ec.NAMES[g]
    c.c("gg 0", same)

    def pick():
        k = rng.random()
        return None if k < 0.04 else cv.g if k < 0.5 else cv.lift(rng)
    ops(c, rng, cv, pick, lambda: scalar(rng, cv.n.bit_length(), cv.n), rng.randrange(3, 7), True)
    c.c("gg 0", same)
    return c


def g_order(rng, ctx, i):
    """The base point has the stated order; scalars act modulo it."""
    g = i % 11
    cv = ec.CURVES[g]
    c = Case("order/" + ec.NAMES[g])
    c.c("gload 0 %d" % g, "0")
    setp(c, rng, 0, cv.g)
    for k in (cv.n, cv.n - 1, cv.n + 1):
        c.c("ms 5 %x 0" % k)
        c.c("pmul 1 0 5 0", "0")
        c.c("pg 1", isp(cv.mul(k, cv.g)))
    return c


def g_misc(rng, ctx):
    c = Case("init and unknown curves")
    for bad in (-1, 11, 12, 255, 1000000):
        c.c("gload 1 %d" % bad, lambda o: None if int(o) != 0 else "unknown curve accepted")
    x, y = rng.randrange(-2**63, 2**63), rng.randrange(-2**63, 2**63)
    c.c("pinit 3 %d %d" % (x, y), "0")
    c.c("pg 3", "%s,%s,1" % (mh(x), mh(y)))

    def inf3(o):
        v = o.split(",")
        return None if v[0] == "0" and len(v) == 10 and v[3] == v[6] == v[9] == "0" else "three points at infinity expected"
    c.c("plist", inf3)
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        k = i % 24
        if i < 3 and w * 3 + i < 11:
            yield g_order(rng, ctx, w * 3 + i)
        if k == 0:
            yield g_all(rng, ctx)
        elif k in (1, 2, 13):
            yield g_builtin(rng, ctx, rng.randrange(11))
        elif k < 9:
            yield g_mid(rng, ctx)
        elif k == 9:
            yield g_misc(rng, ctx)
        else:
            yield g_small(rng, ctx)
        if k % 2:
            c = g_related(rng, ctx)
            if c is not None:
                yield c


def check(run):
    n = 400 if run.tier == "quick" else 4000
    run.sweep(cases, run.bins("asan", "rel"), n, batch=60, cpu=60)
    return run.finish("exploration", RULE, ["the reference parameters (SEC 2, RFC 5639) are transcribed correctly",
                                            "points are on the curve and reduced, scalars non-negative"],
                      require=["builtin/" + n for n in ec.NAMES] + ["order/" + n for n in ec.NAMES] +
                      ["dbl/order2/0", "add/inverse/00", "add/same/00", "mid/order two"] +
                      ["related/" + t for t in ("dx", "dy", "dxdy", "slope", "y", "2y", "any")])
