from vlib.engine import Case, hx, mh
from vlib import gen, sigs
from vlib.ref import num, big

RULE = ("DSA parameter sets generated independently: q of 2..8 bits (all secrets enumerable), 16..64 bits and 160 bits "
        "with p up to 512 bits; messages of 0..130 bytes incl. zero, longer and shorter than q, numerically >= q. Every "
        "signature produced is checked against the equation in Python and by the library's verification; candidate "
        "pairs (genuine, congruent, out of range, negative, zero, swapped, bit-flipped, random; exhaustively all pairs "
        "for the smallest q) with original and altered messages and other keys are decided by the equation and "
        "compared. Key generation is checked arithmetically. Distinct by hash of all commands."
        " Signatures constructed from chosen digits of s, the digest, u1, u2 and the secret (the key is solved for)."
        " Groups with p of 512..3072 bits and q of 160..512 bits; messages up to 1024 bytes.")

_pool = {}


def params(rng, qb, pb):
    pool = _pool.setdefault((qb, pb), [])
    if len(pool) < 4:
        while True:
            q = num.prime(rng, qb)
            k = (1 << pb) // q
            p = None
            for _ in range(4000):
                c = q * rng.randrange(max(2, k // 2), max(3, k)) + 1
                if num.is_prime(c):
                    p = c
                    break
            if p is None or p == q:
                continue
            g = 1
            for _ in range(200):
                g = pow(rng.randrange(2, p), (p - 1) // q, p)
                if g != 1:
                    break
            if g != 1:
                break
        pool.append((p, q, g))
        return pool[-1]
    return rng.choice(pool)


def valid(par, y, z, r, s):
    p, q, g = par
    if not (0 < r < q and 0 < s < q):
        return False
    w = pow(s, -1, q)
    return pow(g, z * w % q, p) * pow(y, r * w % q, p) % p % q == r


def made(par, x, z, k):
    p, q, g = par
    r = pow(g, k, p) % q
    return r, pow(k, -1, q) * (z + x * r) % q


def load(c, s, par, x, y):
    c.c("kinit %d dsa 0" % s, "0")
    for f, v in zip("pqg", par):
        c.c("kset %d %s %s" % (s, f, mh(v)))
    if x is not None:
        c.c("kset %d x %s" % (s, mh(x)))
    if y is not None:
        c.c("kset %d y %s" % (s, mh(y)))


def one(rng, ctx, qb, pb):
    par = p, q, g = qb if isinstance(qb, tuple) else params(rng, qb, pb)
    qb = q.bit_length()
    x = rng.choice((1, q - 1, rng.randrange(1, q), sigs.special(rng, q), sigs.special(rng, q)))
    y = pow(g, x, p)
    m = sigs.message(rng, q)
    z = sigs.digest(q, m)
    c = Case("q %d bits" % qb)
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    c.c("seed %s" % rng.randbytes(32).hex())
    load(c, 0, par, x, y if rng.random() < 0.5 else None)
    load(c, 1, par, x if rng.random() < 0.3 else None, y)
    some, fail = True, False
    if q < 400:
        good = [k for k in range(1, q) if all(made(par, x, z, k))]
        some = bool(good)
        fail = len(good) / (q - 1) * sigs.ROUNDS < 30
        if len(good) < q - 1:
            c.tag("unsuitable secrets exist")
        if not some:
            c.tag("no suitable secret")
    if rng.random() < 0.3:
        c.c("rnd %s" % hx(bytes(rng.choice((0, 255)) for _ in range(rng.randrange(1, 120)))))
        c.tag("forced random bytes")
    n = rng.choice((1, 1, 3))
    for _ in range(n):
        c.c("sv 0 %s 1 %s" % (hx(m), hx(m)), sigs.sign_judge(lambda r, s: valid(par, y, z, r, s), some, fail))
    c.tag("sign z%s" % ("=0" if z == 0 else ">=q" if z >= q else "<q"))
    while True:
        if not some:
            r, s = rng.randrange(1, q), rng.randrange(1, q)
            break
        r, s = made(par, x, z, rng.randrange(1, q))
        if r and s:
            break
    for i in range(7):
        a, b, t, slot, yy = r, s, m, 1, y
        if i:
            if rng.random() < 0.75:
                a, b = sigs.parts(rng, q, r, s)
            else:
                t = sigs.tamper(rng, m)
                if rng.random() < 0.3:
                    a, b = sigs.parts(rng, q, r, s)
        if i == 6:
            yy = pow(g, rng.randrange(1, q), p)
            load(c, 2, par, None, yy)
            slot = 2
        want = valid(par, yy, sigs.digest(q, t), a, b)
        c.c("ver %d %s %s %s" % (slot, mh(a), mh(b), hx(t)), sigs.answer(want))
        c.tag("verify %s %s" % ("genuine" if (a, b, t, yy) == (r, s, m, y) else
                                "range" if not (0 < a < q and 0 < b < q) else "other", "ok" if want else "no"))
    return c


def crafted(rng, ctx, par, reps=6):
    """Valid signatures whose second part, intermediate scalars or digest have chosen digits: the private key is solved for."""
    p, q, g = par
    c = Case("crafted")
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    for i in range(reps):
        k = sigs.special(rng, q)
        if i % 2 == 0:                      # k, s, z chosen
            s, z = sigs.special(rng, q), rng.choice((0, sigs.special(rng, q), sigs.special(rng, q)))
            r = pow(g, k, p) % q
            x = r and (s * k - z) * pow(r, -1, q) % q
        else:                               # u1, u2, x chosen: r = g^(u1 + x u2), s = r/u2, z = u1 s
            u1, u2, x = rng.choice((0, sigs.special(rng, q))), sigs.special(rng, q), sigs.special(rng, q)
            r = pow(g, u1 + x * u2, p) % q
            s = r * pow(u2, -1, q) % q
            z = u1 * s % q
        if not (r and s and x):
            continue
        y = pow(g, x, p)
        m = sigs.said(rng, q, z)
        if sigs.digest(q, m) != z or not valid(par, y, z, r, s):
            raise AssertionError("crafted signature")
        load(c, i % 3, par, None, y)
        c.c("ver %d %s %s %s" % (i % 3, mh(r), mh(s), hx(m)), sigs.answer(True))
        a, b = rng.choice(((r ^ 1, s), (r, s ^ 1), (r, s + (1 << rng.randrange(q.bit_length()))), (r + q, s), (r, s + q), (r, q - s)))
        c.c("ver %d %s %s %s" % (i % 3, mh(a), mh(b), hx(m)), sigs.answer(valid(par, y, z, a, b)))
        c.tag("crafted %s" % ("s" if i % 2 == 0 else "u1 u2"))
        if s.bit_length() + 64 <= q.bit_length():
            c.tag("crafted short s")
        # and signing of that message by that key
        load(c, 3 + i % 3, par, x, None)
        c.c("seed %s" % rng.randbytes(32).hex())
        c.c("sv %d %s %d %s" % (3 + i % 3, hx(m), i % 3, hx(m)), sigs.sign_judge(lambda r, s, y=y, z=z: valid(par, y, z, r, s), True, q < 400))
    return c


def allpairs(rng, ctx):
    """Every pair around the range for a tiny q."""
    par = p, q, g = params(rng, rng.choice((2, 3, 4)), rng.choice((8, 12, 20)))
    x = rng.randrange(1, q)
    y = pow(g, x, p)
    m = sigs.message(rng, q)
    z = sigs.digest(q, m)
    c = Case("all pairs")
    load(c, 0, par, None, y)
    for a in range(-1, q + 2):
        for b in range(-1, q + 2):
            c.c("ver 0 %s %s %s" % (mh(a), mh(b), hx(m)), sigs.answer(valid(par, y, z, a, b)))
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        k = i % 8
        if i % 3 == 2:
            qb = rng.choice((128, 160, 159, 129, 192, 255, 200))
            yield crafted(rng, ctx, params(rng, qb, qb + rng.choice((8, 64, 100))))
        if k == 0:
            yield allpairs(rng, ctx)
        elif k < 4:
            qb = rng.choice((2, 3, 4, 5, 6, 7, 8))
            yield one(rng, ctx, qb, qb + rng.choice((4, 8, 20, 60)))
        elif k < 7:
            qb = rng.choice((15, 16, 17, 31, 33, 63, 64, 65, 80))
            yield one(rng, ctx, qb, qb + rng.choice((8, 40, 64, 100)))
        else:
            qb = rng.choice((160, 159, 161, 224))
            yield one(rng, ctx, qb, rng.choice((256, 320, 512)))


def large(rng, w, count, ctx):
    for i in range(count):
        par = big.DSA[(w + 8 * i + ctx.get("first", 0)) % len(big.DSA)]
        yield one(rng, ctx, par, None).tag("p %d bits" % par[0].bit_length())
        yield crafted(rng, ctx, par, 2)


def keygen(rng, l, again=False):
    """A key is generated in a fresh context, then (again) another one in the same context."""
    c = Case("keygen %d" % (512 + 64 * l))
    c.c("seed %s" % rng.randbytes(32).hex())
    c.c("kinit 0 dsa 0", "0")
    m = rng.randbytes(20)
    at = []
    for lv in (l, rng.choice((0, 0, 1)) if l < 2 else 0)[:2 if again else 1]:
        c.c("kgen 0 %d 0" % lv, "0")
        at.append((lv, len(c.cmds)))
        c.c("kget 0")
        c.c("sv 0 %s 0 %s" % (m.hex(), m.hex()))
    if again:
        c.tag("keygen in a used context")

    def one(o, k, lv):
        p, q, g, x, y = (int(v, 16) for v in o[k].split(","))
        if q.bit_length() != 160 or not num.is_prime(q):
            return "q is not a 160-bit prime"
        if abs(p.bit_length() - (512 + 64 * lv)) > 1 or p.bit_length() > 512 + 64 * lv or not num.is_prime(p):
            return "p is not a prime of the requested length"
        if (p - 1) % q:
            return "q does not divide p-1"
        if not 1 < g < p or pow(g, q, p) != 1:
            return "g is not of order q"
        if not 0 < x < q or y != pow(g, x, p):
            return "keys do not match"
        f = o[k + 1].split(",")
        if f[0] != "0" or f[3] != "0" or not valid((p, q, g), y, sigs.digest(q, m), int(f[1], 16), int(f[2], 16)):
            return "signature with the generated key"
        return None

    def fin(o):
        for lv, k in at:
            e = one(o, k, lv)
            if e:
                return e
    c.final = fin
    return c


def gens(rng, w, count, ctx):
    for i in range(count):
        yield keygen(rng, 0 if ctx["tier"] == "quick" or i % 3 else rng.randrange(0, 5), i % 2 == 0)


def check(run):
    q = run.tier == "quick"
    run.sweep(cases, run.bins("asan", "rel"), 400 if q else 3000, cpu=60)
    run.sweep(large, run.bins("rel"), 1 if q else 20, cpu=240, label="large")
    run.sweep(gens, run.bins("rel"), 2 if q else 12, cpu=80, label="keygen")
    if not q:
        run.sweep(gens, run.bins("asan"), 1, cpu=300, label="keygen-asan")
    return run.finish("exploration", RULE, ["signing may give up after %d unsuitable secrets, which only groups of a few elements can reach" % sigs.ROUNDS],
                      require=["all pairs", "unsuitable secrets exist", "sign z=0", "sign z>=q", "sign z<q", "verify genuine ok",
                               "verify range no", "verify other no", "verify other ok", "q 160 bits", "q 512 bits", "p 2048 bits", "p 2064 bits", "keygen 512",
                               "forced random bytes", "crafted s", "crafted u1 u2", "crafted short s"])
