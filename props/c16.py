from vlib.engine import Case, hx, mh
from vlib import gen, sigs
from vlib.ref import num, ec

RULE = ("ECDSA on the 11 built-in curves and on random curves of prime order over fields of 11..400 elements (all secrets "
        "enumerable, order above and below the field size): messages of 0..130 bytes incl. zero, longer and shorter than "
        "the order, numerically >= the order. Every signature produced is checked against the equation in Python and by "
        "the library; candidate pairs (genuine, congruent, out of range, negative, zero, swapped, bit-flipped, random; "
        "all pairs for tiny orders) with original and altered messages and other public keys are decided by the "
        "equation and compared. Key generation on every curve. Distinct by hash of all commands."
        " Signatures constructed from chosen digits of r, s, the digest, u1, u2 (the public key is solved for)."
        " Messages up to 1024 bytes, sums that are the point at infinity.")


def valid(cv, Q, z, r, s):
    n = cv.n
    if not (0 < r < n and 0 < s < n):
        return False
    w = pow(s, -1, n)
    X = cv.add(cv.mul(z * w % n, cv.g), cv.mul(r * w % n, Q))
    return X is not None and X[0] % n == r


def made(cv, d, z, k):
    X = cv.mul(k, cv.g)
    r = X[0] % cv.n
    return r, pow(k, -1, cv.n) * (z + d * r) % cv.n


def load(c, s, cv, gid, d, Q):
    c.c("kinit %d ecdsa %d" % (s, -1 if gid is None else gid), "0")
    if gid is None:
        for f, v in (("p", cv.p), ("a", cv.a), ("b", cv.b), ("gx", cv.g[0]), ("gy", cv.g[1]), ("gz", 1), ("n", cv.n)):
            c.c("kset %d %s %s" % (s, f, mh(v)))
    if d is not None:
        c.c("kset %d d %s" % (s, mh(d)))
    if Q is not None:
        c.c("kset %d qx %s" % (s, mh(Q[0]))).c("kset %d qy %s" % (s, mh(Q[1]))).c("kset %d qz 1" % s)


def one(rng, ctx, gid):
    if gid is None:
        cv, pts = ec.small_prime_order(rng)
        c = Case("small curve", "order %s field" % ("<" if cv.n < cv.p else "=" if cv.n == cv.p else ">"))
    else:
        cv = ec.CURVES[gid]
        c = Case(ec.NAMES[gid])
    n = cv.n
    d = rng.choice((1, n - 1, rng.randrange(1, n), sigs.special(rng, n), sigs.special(rng, n)))
    Q = cv.mul(d, cv.g)
    m = sigs.message(rng, n)
    z = sigs.digest(n, m)
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    c.c("seed %s" % rng.randbytes(32).hex())
    load(c, 0, cv, gid, d, Q if rng.random() < 0.5 else None)
    load(c, 1, cv, gid, d if rng.random() < 0.3 else None, Q)
    some, fail = True, False
    if gid is None:
        good = [k for k in range(1, n) if all(made(cv, d, z, k))]
        some = bool(good)
        fail = len(good) / (n - 1) * sigs.ROUNDS < 30
        if len(good) < n - 1:
            c.tag("unsuitable secrets exist")
    if rng.random() < 0.3:
        c.c("rnd %s" % hx(bytes(rng.choice((0, 255)) for _ in range(rng.randrange(1, 120)))))
        c.tag("forced random bytes")
    for _ in range(1 if gid is not None else rng.choice((1, 3, 6))):
        c.c("sv 0 %s 1 %s" % (hx(m), hx(m)), sigs.sign_judge(lambda r, s: valid(cv, Q, z, r, s), some, fail))
    c.tag("sign z%s" % ("=0" if z == 0 else ">=n" if z >= n else "<n"))
    while True:
        if not some:
            r, s = rng.randrange(1, n), rng.randrange(1, n)
            break
        r, s = made(cv, d, z, rng.randrange(1, n))
        if r and s:
            break
    for i in range(8 if gid is None else 4):
        a, b, t, slot, QQ = r, s, m, 1, Q
        if i:
            if rng.random() < 0.7:
                a, b = sigs.parts(rng, n, r, s)
            else:
                t = sigs.tamper(rng, m)
        if i == 3:
            QQ = cv.mul(rng.randrange(1, n), cv.g)
            load(c, 2, cv, gid, None, QQ)
            slot = 2
        want = valid(cv, QQ, sigs.digest(n, t), a, b)
        c.c("ver %d %s %s %s" % (slot, mh(a), mh(b), hx(t)), sigs.answer(want))
        c.tag("verify %s %s" % ("genuine" if (a, b, t, QQ) == (r, s, m, Q) else
                                "range" if not (0 < a < n and 0 < b < n) else "other", "ok" if want else "no"))
    # u1*G + u2*Q is the point at infinity: z + r*d = 0
    if z % n:
        r0 = -z * pow(d, -1, n) % n
        s0 = rng.randrange(1, n)
        c.c("ver 1 %s %s %s" % (mh(r0), mh(s0), hx(m)), sigs.answer(valid(cv, Q, z, r0, s0)))
        c.tag("sum is infinity")
    return c


def crafted(rng, gid, reps=3):
    """Valid signatures of which r, s, the digest and the scalars have chosen digits: the public key is solved for."""
    cv = ec.CURVES[gid]
    p, n = cv.p, cv.n
    c = Case("crafted " + ec.NAMES[gid])
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    for i in range(reps):
        if i == 1 and n < p:                # x coordinate at or above the order
            x = n + (rng.randrange(1, 1 << 16) if p - n > 1 << 20 else rng.randrange(max(1, p - n)))
            x = x if x < p else n + 1
            c.tag("crafted x above the order")
        else:
            x = sigs.special(rng, p)
        while True:
            y = num.sqrt_mod(x ** 3 + cv.a * x + cv.b, p)
            if y is not None and x % n:
                break
            x = (x + 1) % p
        R = x, rng.choice((y, -y % p))
        r = x % n
        if rng.random() < 0.5:
            s, z = sigs.special(rng, n), rng.choice((0, sigs.special(rng, n), sigs.special(rng, n)))
            u1, u2 = z * pow(s, -1, n) % n, r * pow(s, -1, n) % n
        else:
            u1, u2 = rng.choice((0, sigs.special(rng, n), sigs.special(rng, n))), sigs.special(rng, n)
            s = r * pow(u2, -1, n) % n
            z = u1 * s % n
        G = cv.mul(u1, cv.g) if u1 else None
        S = R if G is None else cv.add(R, cv.neg(G))
        if S is None:
            continue
        Q = cv.mul(pow(u2, -1, n), S)
        m = sigs.said(rng, n, z)
        if sigs.digest(n, m) != z or not valid(cv, Q, z, r, s):
            raise AssertionError("crafted signature")
        load(c, i, cv, gid, None, Q)
        c.c("ver %d %s %s %s" % (i, mh(r), mh(s), hx(m)), sigs.answer(True))
        a, b = rng.choice(((r ^ 1, s), (r, s ^ 1), (r, s ^ (1 << rng.randrange(n.bit_length()))), (r + n, s), (r, s + n), (x, s), (n - r, s)))
        c.c("ver %d %s %s %s" % (i, mh(a), mh(b), hx(m)), sigs.answer(valid(cv, Q, z, a, b)))
        c.tag("crafted")
        if i == 0:                          # a key and a digest with chosen digits: signing
            d, zd = sigs.special(rng, n), sigs.special(rng, n)
            Q, m = cv.mul(d, cv.g), sigs.said(rng, n, zd)
            load(c, 4, cv, gid, d, None)
            load(c, 5, cv, gid, None, Q)
            c.c("seed %s" % rng.randbytes(32).hex())
            c.c("sv 4 %s 5 %s" % (hx(m), hx(m)), sigs.sign_judge(lambda r, s, Q=Q, zd=zd: valid(cv, Q, zd, r, s), True, False))
        if s.bit_length() + 64 <= n.bit_length():
            c.tag("crafted short s")
        if r.bit_length() + 64 <= n.bit_length():
            c.tag("crafted short r")
    return c


def allpairs(rng, ctx):
    cv, pts = ec.small_prime_order(rng, 5, 13)
    n = cv.n
    d = rng.randrange(1, n)
    Q = cv.mul(d, cv.g)
    m = sigs.message(rng, n)
    z = sigs.digest(n, m)
    c = Case("all pairs")
    load(c, 0, cv, None, None, Q)
    for a in range(-1, n + 2):
        for b in range(-1, n + 2):
            c.c("ver 0 %s %s %s" % (mh(a), mh(b), hx(m)), sigs.answer(valid(cv, Q, z, a, b)))
    return c


def keygen(rng, gid):
    cv = ec.CURVES[gid] if gid is not None else ec.small_prime_order(rng)[0]
    c = Case("keygen " + (ec.NAMES[gid] if gid is not None else "small"))
    c.c("seed %s" % rng.randbytes(32).hex())
    if rng.random() < 0.3:
        c.c("rnd %s" % hx(bytes(rng.choice((0, 0, 255)) for _ in range(rng.randrange(1, 90)))))
    load(c, 0, cv, gid, None, None)
    m = rng.randbytes(rng.choice((20, 32, 64)))
    z = sigs.digest(cv.n, m)

    def kj(o):
        d, x, y, zz = (int(v, 16) for v in o.split(","))
        if not 0 < d < cv.n:
            return "private key out of range"
        if (x, y) != cv.mul(d, cv.g) or zz != 1:
            return "public point does not match"
        kj.d = d
        return None

    def sj(o):
        f = o.split(",")
        if f[0] != "0":
            return None if gid is None and cv.n < 40 else "signing failed"
        if f[3] != "0" or not valid(cv, cv.mul(kj.d, cv.g), z, int(f[1], 16), int(f[2], 16)):
            return "signature with the generated key"
    for _ in range(1 if gid is not None else 6):
        c.c("kgen 0 0 0", "0").c("kget 0", kj)
        c.c("sv 0 %s 0 %s" % (m.hex(), m.hex()), sj)
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        k = (i + w) % 8
        if k == 0:
            yield allpairs(rng, ctx)
        elif k == 1:
            yield keygen(rng, None)
        elif i % 40 == 5:
            yield one(rng, ctx, rng.choice((0, 1, 2, 5, 6, 7)))
        else:
            yield one(rng, ctx, None)


def builtin(rng, w, count, ctx):
    for i in range(count):
        for gid in range(11):
            if gid % 8 == w or gid - 8 == w - 5:
                yield keygen(rng, gid)
                yield crafted(rng, gid)
                yield one(rng, ctx, gid)


def check(run):
    q = run.tier == "quick"
    run.sweep(cases, run.bins("asan", "rel"), 240 if q else 2400, cpu=60)
    run.sweep(builtin, run.bins("rel"), 3 if q else 40, cpu=60, label="builtin")
    return run.finish("exploration", RULE, ["signing may give up after %d unsuitable secrets, which only groups of a few elements can reach" % sigs.ROUNDS],
                      require=["all pairs", "unsuitable secrets exist", "sign z=0", "sign z>=n", "sign z<n", "verify genuine ok",
                               "verify range no", "verify other no", "verify other ok", "sum is infinity", "forced random bytes",
                               "order < field", "order > field", "crafted", "crafted short s", "crafted short r", "crafted x above the order"] + ec.NAMES + ["keygen " + n for n in ec.NAMES])
