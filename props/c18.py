import math
from vlib.engine import Case, hx, mh
from vlib import gen, sigs
from vlib.ref import num, ec, big

RULE = ("Two parties with independent contexts. Diffie-Hellman over primes of 2..521 bits, exponents 0, 1, p-2, p-1, above "
        "the modulus and random, generators incl. 1 and p-1; tokens exported into buffers of the exact and larger sizes "
        "(zero padding checked), too small buffers refused, imported by the other party, both orders of agreement, "
        "repeated agreements on one context. ECDH on the 11 built-in curves and on small curves (any generator, scalars "
        "0..beyond the order). Both secrets are compared with the mathematical value. Distinct by hash of all commands."
        " Tokens, points and common secrets with chosen digits (the generator or the peer's point is solved for)."
        " Diffie-Hellman moduli of 1024..4104 bits.")

_pool = {}


def prime(rng, bits):
    if bits in big.PRIMES:
        return big.PRIMES[bits]
    pool = _pool.setdefault(bits, [])
    if len(pool) < 4 or bits < 12:
        pool.append(num.prime(rng, bits))
        return pool[-1]
    return rng.choice(pool)


def token(c, slot, v, nb, rng, cmd="gettok"):
    need = (v.bit_length() + 7) // 8
    if need and rng.random() < 0.2:
        c.c("%s %d %d" % (cmd, slot, rng.randrange(0, need)), lambda o: None if o[0] == "-" else "does not fit but reported as success")
        c.tag("buffer too small")
    size = nb + rng.choice((0, 0, 0, 1, 7, 33))
    c.c("%s %d %d" % (cmd, slot, size), "0," + hx(v.to_bytes(size, "big")))
    if need < nb:
        c.tag("leading zero " + cmd)
    return v.to_bytes(size, "big")


def dh(rng, ctx, bits=None):
    p = prime(rng, bits or rng.choice((2, 3, 5, 8, 9, 16, 31, 33, 63, 64, 65, 128, 129, 192, 256, 521) if rng.random() < 0.8 else (8, 16)))
    nb = (p.bit_length() + 7) // 8
    c = Case("dh %d bytes" % nb)
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    g = rng.choice((1, 2, p - 1, rng.randrange(1, p), rng.randrange(1, p)))
    chosen = None
    if p > 40 and rng.random() < 0.4:       # a token or the secret has chosen digits: the generator is solved for
        def unit():
            while True:
                v = sigs.special(rng, p)
                if math.gcd(v, p - 1) == 1:
                    return v
        chosen = [unit(), unit()]
        g = pow(sigs.special(rng, p), pow(chosen[0] * rng.choice((1, chosen[1])), -1, p - 1), p)
        c.tag("chosen digits")
    c.c("kinit 0 dh 0", "0").c("kinit 1 dh 0", "0")
    for s in (0, 1):
        c.c("kset %d p %s" % (s, mh(p))).c("kset %d g %s" % (s, mh(g)))
    for _ in range(rng.choice((1, 1, 2))):
        e = [rng.choice((0, 1, 2, max(0, p - 2), p - 1, p, rng.randrange(p), sigs.special(rng, p), sigs.special(rng, p), rng.getrandbits(p.bit_length() + 40)))
             for _ in (0, 1)]
        if chosen:
            e, chosen = chosen, None
        Y = [pow(g, x, p) for x in e]
        Z = pow(Y[0], e[1], p)
        assert Z == pow(Y[1], e[0], p)
        for s in (0, 1):
            c.c("kset %d e %s" % (s, mh(e[s])))
        t = [None, None]
        for s in rng.sample((0, 1), 2):
            c.c("agree %d" % s, "0")
            t[s] = token(c, s, Y[s], nb, rng)
        for s in rng.sample((0, 1), 2):
            c.c("settok %d %s" % (s, hx(t[1 - s])), "0")
            c.c("final %d" % s, "0")
            token(c, s, Z, nb, rng, "getsec")
            c.c("kget %d" % s, "%s,%s,%s" % (mh(e[s]), mh(Y[1 - s]), mh(Z)))
        if max(e) >= p:
            c.tag("exponent above the modulus")
        if 0 in e:
            c.tag("exponent zero")
        if Z == 1:
            c.tag("secret one")
    return c


def ecdh(rng, ctx, gid):
    if gid is None:
        cv, pts = ec.small(rng)
        cv = ec.Curve(cv.p, cv.a, cv.b, rng.choice(pts) if pts else None)
        if cv.g is None:
            return None
        cv.n = cv.order(cv.g)
        c = Case("ecdh small")
    else:
        cv = ec.CURVES[gid]
        c = Case("ecdh " + ec.NAMES[gid])
    n = cv.n
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    d = [rng.choice((1, 2, n - 1, n, n + 1, rng.randrange(n), rng.randrange(n), rng.randrange(n), rng.randrange(4 * n))) for _ in (0, 1)]
    if gid is not None:
        d = [x if i else rng.randrange(1, n) for i, x in enumerate(d)]
    Q = [cv.mul(x, cv.g) for x in d]
    Z = cv.mul(d[0], Q[1])
    assert Z == cv.mul(d[1], Q[0])

    def pt(P, k):
        def j(o):
            f = [int(v, 16) for v in o.split(",")]
            q = f[1 + 3 * k:4 + 3 * k]
            if P is None:
                return None if q[2] == 0 else "should be the point at infinity"
            return None if tuple(q) == (P[0], P[1], 1) else "not the point prescribed by the group law"
        return j
    for s in (0, 1):
        c.c("kinit %d ecdh 0" % s, "0")
        if gid is not None:
            c.c("kgrp %d %d" % (s, gid), "0")
        else:
            for f, v in (("p", cv.p), ("a", cv.a), ("b", cv.b), ("gx", cv.g[0]), ("gy", cv.g[1]), ("gz", 1), ("n", cv.n)):
                c.c("kset %d %s %s" % (s, f, mh(v)))
        c.c("kset %d d %s" % (s, mh(d[s])))
        c.c("agree %d" % s, "0").c("kget %d" % s, pt(Q[s], 0))
    for s in rng.sample((0, 1), 2):
        P = Q[1 - s]
        for f, v in (("qx", P[0] if P else 0), ("qy", P[1] if P else 0), ("qz", 1 if P else 0)):
            c.c("kset %d %s %s" % (s, f, mh(v)))
        c.c("final %d" % s, "0").c("kget %d" % s, pt(Z, 1))
    if gid is not None:                     # the peer's point or the common one has chosen digits
        d = sigs.special(rng, n)
        x = sigs.special(rng, cv.p)
        while True:
            y = num.sqrt_mod(x ** 3 + cv.a * x + cv.b, cv.p)
            if y is not None:
                break
            x = (x + 1) % cv.p
        T = x, rng.choice((y, -y % cv.p))
        P, Z2 = (T, cv.mul(d, T)) if rng.random() < 0.5 else (cv.mul(pow(d, -1, n), T), T)
        c.c("kset 0 d %s" % mh(d))
        for f, v in (("qx", P[0]), ("qy", P[1]), ("qz", 1)):
            c.c("kset 0 %s %s" % (f, mh(v)))
        c.c("final 0", "0").c("kget 0", pt(Z2, 1))
        c.tag("ecdh chosen digits")
    if Z is None:
        c.tag("ecdh secret infinity")
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        if i % 3 == 2:
            c = ecdh(rng, ctx, None)
            if c:
                yield c
        else:
            yield dh(rng, ctx)


LARGE = (1024, 1031, 2040, 2048, 2056, 2064, 3072, 4104)


def large(rng, w, count, ctx):
    for i in range(count):
        yield dh(rng, ctx, LARGE[(w + i) % len(LARGE)])


def builtin(rng, w, count, ctx):
    for i in range(count):
        for gid in range(11):
            if gid % 8 == w or gid - 8 == w - 5:
                yield ecdh(rng, ctx, gid)


def check(run):
    q = run.tier == "quick"
    run.sweep(cases, run.bins("asan", "rel"), 500 if q else 5000, cpu=60)
    run.sweep(large, run.bins("rel"), 1 if q else 16, cpu=240, label="large")
    run.sweep(builtin, run.bins("rel"), 5 if q else 100, cpu=60, label="builtin")
    return run.finish("exploration", RULE, ["ECDH tokens are handed over as points, the only form the library offers"],
                      require=["dh 1 bytes", "dh 66 bytes", "dh 257 bytes", "dh 513 bytes", "leading zero gettok", "chosen digits", "ecdh chosen digits", "leading zero getsec", "buffer too small",
                               "exponent above the modulus", "exponent zero", "secret one", "ecdh small", "ecdh secret infinity"] +
                      ["ecdh " + n for n in ec.NAMES])
