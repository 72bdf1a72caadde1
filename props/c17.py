import math
from vlib.engine import Case, hx, mh
from vlib import gen, sigs
from vlib.ref import num, big

RULE = ("ElGamal keys over primes of 3..8 bits (all secrets enumerable), 9..130 bits and 256 bits, any element as "
        "generator; messages from empty to longer than the modulus, in the object form and in the byte form (exact-size "
        "signature buffers). Every signature produced is checked against g^z = y^r r^s and by the library in both forms; "
        "candidate pairs (genuine, congruent, out of range, negative, zero, swapped, bit-flipped, random; all pairs for "
        "tiny primes) with original and altered messages and other keys are decided by the equation and compared. "
        "Distinct by hash of all commands."
        " Signatures constructed from chosen digits of r, s and the message (generator and key are solved for)."
        " Moduli of 1024..2064 bits.")

_pool = {}


def prime(rng, bits):
    if bits in big.PRIMES:
        return big.PRIMES[bits]
    pool = _pool.setdefault(bits, [])
    if len(pool) < 4 or bits < 9:
        pool.append(num.prime(rng, bits))
        return pool[-1]
    return rng.choice(pool)


def valid(k, z, r, s):
    p, g, y = k
    return 0 < r < p and 0 < s < p - 1 and pow(g, z, p) == pow(y, r, p) * pow(r, s, p) % p


def load(c, s, k, d, y=True):
    c.c("kinit %d elg 0" % s, "0")
    c.c("kset %d p %s" % (s, mh(k[0]))).c("kset %d g %s" % (s, mh(k[1])))
    if y:
        c.c("kset %d y %s" % (s, mh(k[2])))
    if d is not None:
        c.c("kset %d d %s" % (s, mh(d)))


def made(p, g, d, z, k):
    r = pow(g, k, p)
    return r, (z - d * r) * pow(k, -1, p - 1) % (p - 1)


def message(rng, p):
    nb = (p.bit_length() + 7) // 8
    r = rng.random()
    if r < 0.1:
        return b""
    if r < 0.2:
        return rng.choice((p, p - 1, p - 2, p + 1)).to_bytes(nb + 1, "big")[-nb:]
    if r < 0.3:
        return bytes(rng.randrange(1, nb + 1))
    return gen.data_bytes(rng, rng.choice((1, nb, nb, nb - 1, rng.randrange(0, nb + 1))))


def one(rng, ctx, bits):
    p = prime(rng, bits)
    nb = (p.bit_length() + 7) // 8
    g = rng.randrange(2, p) if p > 3 else 2
    d = rng.choice((1, p - 2, rng.randrange(1, p - 1), rng.randrange(1, p - 1)) if p < 6 else
                   (1, p - 2, rng.randrange(1, p - 1), sigs.special(rng, p - 1), sigs.special(rng, p - 1)))
    y = pow(g, d, p)
    k = p, g, y
    m = message(rng, p)
    z = int.from_bytes(m, "big")
    c = Case("p %s bits" % (bits if bits < 9 else "9-130" if bits < 200 else bits))
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    c.c("seed %s" % rng.randbytes(32).hex())
    load(c, 0, k, d, rng.random() < 0.5)
    load(c, 1, k, d if rng.random() < 0.3 else None)
    some, fail = True, False
    if p < 700:
        good = [t for t in range(1, p - 1) if math.gcd(t, p - 1) == 1 and made(p, g, d, z, t)[1]]
        some = bool(good)
        fail = len(good) / (p - 1) * sigs.ROUNDS < 30
        if not some:
            c.tag("no suitable secret")
    if rng.random() < 0.3:
        c.c("rnd %s" % hx(bytes(rng.choice((0, 255)) for _ in range(rng.randrange(1, 120)))))
        c.tag("forced random bytes")
    if rng.random() < 0.6:
        c.c("sv 0 %s 1 %s" % (hx(m), hx(m)), sigs.sign_judge(lambda r, s: valid(k, z, r, s), some, fail))
        c.tag("object form")
    if rng.random() < 0.6:
        def ej(o):
            f = o.split(",")
            if f[0] != "0":
                return None if fail else "signing failed"
            b = bytes.fromhex(f[1])
            if not some or not valid(k, z, int.from_bytes(b[:nb], "big"), int.from_bytes(b[nb:], "big")):
                return "not a valid signature"
            if f[2] != "0":
                return "own signature refused"
        c.c("esv 0 %s %d 1 %s" % (hx(m), 2 * nb, hx(m)), ej)
        c.tag("byte form")
    while True:
        t = rng.randrange(1, p - 1) if p > 3 else 1
        if math.gcd(t, p - 1) == 1:
            r, s = made(p, g, d, z, t)
            break
    for i in range(7):
        a, b, t, slot, kk = r, s, m, 1, k
        if i:
            if rng.random() < 0.75:
                a, b = sigs.parts(rng, p - rng.randrange(2), r, s)
            else:
                t = sigs.tamper(rng, m)
        if i == 6:
            kk = p, g, pow(g, rng.randrange(1, p - 1) if p > 3 else 1, p)
            load(c, 2, kk, None)
            slot = 2
        want = len(t) <= nb and valid(kk, int.from_bytes(t, "big"), a, b)
        c.c("ver %d %s %s %s" % (slot, mh(a), mh(b), hx(t)), sigs.answer(want))
        if 0 <= a < 1 << (8 * nb) and 0 <= b < 1 << (8 * nb):
            c.c("ever %d %s %s" % (slot, hx(a.to_bytes(nb, "big") + b.to_bytes(nb, "big")), hx(t)), sigs.answer(want))
        c.tag("verify %s %s" % ("genuine" if (a, b, t, kk) == (r, s, m, k) else
                                "range" if not (0 < a < p and 0 < b < p - 1) else "other", "ok" if want else "no"))
    # longer than the modulus
    t = rng.choice((bytes(rng.randrange(1, 4)) + m.rjust(nb, b"\0"), rng.randbytes(nb + rng.randrange(1, 9))))
    c.c("sign 0 %s" % hx(t), lambda o: None if o[0] == "-" else "over-long message signed")
    c.c("esign 0 %s %d" % (hx(t), 2 * nb), lambda o: None if o[0] == "-" else "over-long message signed")
    c.c("ver 1 %s %s %s" % (mh(r), mh(s), hx(t)), sigs.answer(False))
    c.c("ever 1 %s %s" % (hx(r.to_bytes(nb, "big") + s.to_bytes(nb, "big")), hx(t)), sigs.answer(False))
    c.tag("over-long message")
    return c


def crafted(rng, ctx, bits):
    """Valid signatures of which both parts and the message have chosen digits: generator and key are solved for."""
    p = prime(rng, bits)
    nb = (p.bit_length() + 7) // 8
    c = Case("crafted %d" % bits)
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    for i in range(3):
        while True:
            r, k = sigs.special(rng, p), rng.choice((1, sigs.special(rng, p), rng.randrange(1, p)))
            if math.gcd(k, p - 1) == 1 and math.gcd(r, p - 1) == 1:
                break
        s = sigs.special(rng, p - 1)
        z = rng.choice((0, sigs.special(rng, p), sigs.special(rng, p)))
        g = pow(r, pow(k, -1, p - 1), p)
        d = (z - k * s) * pow(r, -1, p - 1) % (p - 1)
        key = p, g, pow(g, d, p)
        zb = (z.bit_length() + 7) // 8
        m = z.to_bytes(rng.randrange(zb, nb + 1), "big")
        if g < 2 or not d:
            continue
        if not valid(key, z, r, s):
            raise AssertionError("crafted signature")
        load(c, i, key, None)
        c.c("ver %d %s %s %s" % (i, mh(r), mh(s), hx(m)), sigs.answer(True))
        c.c("ever %d %s %s" % (i, hx(r.to_bytes(nb, "big") + s.to_bytes(nb, "big")), hx(m)), sigs.answer(True))
        a, b = rng.choice(((r ^ 1, s), (r, s ^ 1), (r + p, s), (r, s + p - 1), (r, p - 1 - s), (p - r, s)))
        c.c("ver %d %s %s %s" % (i, mh(a), mh(b), hx(m)), sigs.answer(valid(key, z, a, b)))
        c.tag("crafted")
        if s.bit_length() + 64 <= p.bit_length():
            c.tag("crafted short s")
        if r.bit_length() + 64 <= p.bit_length():
            c.tag("crafted short r")
        load(c, i + 3, key, d)
        c.c("seed %s" % rng.randbytes(32).hex())
        c.c("sv %d %s %d %s" % (i + 3, hx(m), i, hx(m)), sigs.sign_judge(lambda r, s, key=key, z=z: valid(key, z, r, s), True, False))
    return c


def allpairs(rng, ctx):
    p = num.prime(rng, rng.choice((2, 3, 4)))
    g = rng.randrange(2, p) if p > 3 else p - 1
    k = p, g, pow(g, rng.randrange(1, p), p)
    m = message(rng, p)
    z = int.from_bytes(m, "big")
    c = Case("all pairs")
    load(c, 0, k, None)
    for a in range(-1, p + 2):
        for b in range(-1, p + 2):
            c.c("ver 0 %s %s %s" % (mh(a), mh(b), hx(m)), sigs.answer(valid(k, z, a, b)))
            if a >= 0 and b >= 0:
                c.c("ever 0 %s %s" % (hx(bytes((a, b))), hx(m)), sigs.answer(valid(k, z, a, b)))
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        k = i % 8
        if k == 0:
            yield allpairs(rng, ctx)
        elif k < 4:
            yield one(rng, ctx, rng.randrange(3, 9))
        elif k < 7:
            yield one(rng, ctx, rng.choice((9, 15, 16, 17, 31, 33, 63, 64, 65, 72, 127, 128, 129, 130)))
        else:
            yield one(rng, ctx, 256)
        if i % 3 == 1:
            yield crafted(rng, ctx, rng.choice((127, 128, 129, 130, 256)))


LARGE = (1024, 1031, 2040, 2048, 2056, 2064)


def large(rng, w, count, ctx):
    for i in range(count):
        yield one(rng, ctx, LARGE[(w + i) % len(LARGE)])
        yield crafted(rng, ctx, LARGE[(w + i + 3) % len(LARGE)])


def check(run):
    q = run.tier == "quick"
    run.sweep(large, run.bins("rel"), 1 if q else 20, cpu=120, label="large")
    run.sweep(cases, run.bins("asan", "rel"), 300 if q else 4000, cpu=60)
    return run.finish("exploration", RULE, ["signing may give up after %d unsuitable secrets, which only groups of a few elements can reach" % sigs.ROUNDS],
                      require=["all pairs", "object form", "byte form", "verify genuine ok", "verify range no", "verify other no",
                               "verify other ok", "p 256 bits", "p 2056 bits", "over-long message", "forced random bytes", "crafted", "crafted short s", "crafted short r"])
