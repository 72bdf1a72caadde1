from vlib.engine import Case, mh, hx
from vlib import gen
from vlib.ref import num, big

RULE = ("Random integers for every bit length 0..700 and beyond, drawn from seeded generators and from substituted "
        "random streams (leading zero bytes, all zero, all ones, the bound itself, the candidate itself); random "
        "integers below hostile bounds; primality of small numbers, primes of many sizes under hostile random "
        "streams, Carmichael numbers, strong pseudoprimes, prime powers and products of two primes; the acceptance "
        "rate of worst-case composites against the Miller-Rabin bound; generated primes of all byte lengths with "
        "and without iteration limit. Distinct by hash of all commands."
        " Proth primes k*2^e+1 up to e=300 (long squaring runs), primes and composites of 1024..4104 bits.")


def stream(rng, n, v=None):
    """Hostile random bytes for a request of about n bytes."""
    n = max(1, n)
    k = rng.randrange(7)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k == 2:
        z = rng.randrange(0, n + 1)
        return bytes(z) + rng.randbytes(n - z)
    if k == 3 and v is not None:
        d = max(0, v + rng.choice((-3, -2, -1, 0, 0, 0, 1, 2)))
        d = min(d, (1 << (8 * n)) - 1)
        return d.to_bytes(n, "big")
    if k == 4:
        return bytes(n - 1) + rng.randbytes(1)
    if k == 5:
        return b"\x80" + bytes(n - 1)
    return rng.randbytes(n)


def start(rng):
    c = Case()
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    c.c("seed %s" % hx(rng.randbytes(rng.choice((16, 20, 32)))))
    return c


def val(o):
    s = o.lstrip("-")
    if not all(ch in "0123456789abcdef" for ch in s) or not s:
        raise ValueError(o)
    return int(o, 16)


def g_rand(rng, ctx):
    c = start(rng)
    for _ in range(rng.randrange(1, 7)):
        n = rng.choice((0, 1, 2, 7, 8, 9, 63, 64, 65, 127, 128, 129, rng.randrange(0, 700),
                        gen.bits_size(rng, 5000, ctx["consts"])))
        if rng.random() < 0.6:
            c.c("ms 0 %s %d" % (mh(gen.integer(rng, 800)), rng.choice((0, 3, 40))))
        if rng.random() < 0.6:
            c.c("rnd %s" % hx(stream(rng, (n + 7) // 8)))
            c.tag("rand/substituted")
        c.c("rand 0 %d" % n, "0")

        def ok(o, n=n):
            v = val(o)
            return None if v >= 0 and v.bit_length() == n else "%d bits wanted, got %d" % (n, v.bit_length())
        c.c("mg 0", ok)
        c.c("rndoff")
        c.tag("rand/bits%%8=%d" % (n % 8))
    return c


def g_spread(rng, ctx):
    """Every bit below the top one takes both values."""
    n = rng.choice((2, 8, 9, 16, 63, 64, 65, 128, 160, 200, 256, 521))
    c = start(rng)
    idx = []
    for _ in range(70):
        c.c("rand 0 %d" % n, "0")
        c.c("mg 0")
        idx.append(len(c.cmds) - 1)

    def final(outs):
        o, a = 0, -1
        for i in idx:
            v = val(outs[i])
            o |= v
            a &= v
        if o != (1 << n) - 1 or a != 1 << (n - 1):
            return "70 random integers of %d bits: some bit never varies (or=%x and=%x)" % (n, o, a)
    c.final = final
    return c.tag("spread/%d" % n)


def g_range(rng, ctx):
    c = start(rng)
    for _ in range(rng.randrange(1, 7)):
        b = rng.choice((1, 2, 3, 4, 255, 256, 257, 2**64 - 1, 2**64, 2**64 + 1, 1 << rng.randrange(1, 600),
                        gen.magnitude(rng, gen.bits_size(rng, 900, ctx["consts"]))))
        b = max(1, b)
        c.c("ms 1 %s %d" % (mh(b), rng.choice((0, 3))))
        if rng.random() < 0.4:
            c.c("ms 0 %s %d" % (mh(gen.integer(rng, 800)), rng.choice((0, 3, 40))))
        if rng.random() < 0.6:
            c.c("rnd %s" % hx(stream(rng, (b.bit_length() + 7) // 8, b)))
        c.c("rrange 0 1", "0")

        def ok(o, b=b):
            v = val(o)
            return None if 0 <= v < b else "not below the bound %x" % b
        c.c("mg 0", ok)
        c.c("mg 1", mh(b))
        c.c("rndoff")
        c.tag("range/%s" % ("pow2" if b & (b - 1) == 0 else "other"))
    return c


CARM = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361,
        3215031751, 3825123056546413051, 341550071728321, 2152302898747, 3474749660383, 2047, 1373653, 25326001,
        3825123056546413051, 318665857834031151167461, 3317044064679887385961981,
        1590231231043178376951698401, 6799909 * 11899843 if False else 1009 * 1009, 1013 * 1013, 1019**3,
        0xffffffff, 2**64 + 1, 2**67 - 1, 2**128 + 1]
PR = [2, 3, 5, 7, 1009, 1013, 65537, 2**31 - 1, 2**61 - 1, 2**64 - 59, 2**64 + 13, 2**89 - 1, 2**127 - 1,
      2**128 - 159, 2**192 - 2**64 - 1, 2**255 - 19, 2**521 - 1, 2**32 - 5, 2**32 + 15, 257, 251, 65521, 65539]


_proth = {}


def proth(rng):
    """k*2^e + 1 prime, k odd and small: a long run of squarings in every round."""
    e = rng.choice((2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 300))
    pool = _proth.setdefault(e, [])
    if len(pool) < 3:
        while True:
            p = (rng.getrandbits(rng.choice((8, 16, 40))) | 1 << 8 | 1) * (1 << e) + 1
            if num.is_prime(p):
                pool.append(p)
                return p, e
    return rng.choice(pool), e


def g_large(rng, bits):
    """Primes and composites of cryptographic sizes."""
    c = start(rng).tag("large %d" % bits)
    p = big.PRIMES[bits]
    c.c("ms 0 %s 0" % mh(p)).c("isprime 0", "1")
    q = num.prime(rng, 64)
    c.c("ms 0 %s 0" % mh(p * q)).c("isprime 0", "0")
    return c


def large(rng, w, count, ctx):
    b = sorted(big.PRIMES)
    for i in range(count):
        yield g_large(rng, b[(w + i) % len(b)])


def g_prime(rng, ctx):
    """Primes are never rejected."""
    c = start(rng)
    for _ in range(rng.randrange(1, 5)):
        k = rng.random()
        if k < 0.25:
            p = rng.choice(PR)
        elif k < 0.45:
            p = rng.choice(num.SMALL)
        elif k < 0.65:
            p, e = proth(rng)
            c.tag("prime/Proth", "prime/Proth %d" % e)
        else:
            p = num.prime(rng, rng.choice((10, 11, 12, 16, 17, 20, 32, 33, 63, 64, 65, 96, 128, 160, 256)))
        c.c("ms 0 %s %d" % (mh(p), rng.choice((0, 4))))
        if rng.random() < 0.7:
            n = (p.bit_length() + 7) // 8
            c.c("rnd %s" % hx(b"".join(stream(rng, n, p) for _ in range(rng.choice((1, 5, 8))))))
            c.tag("prime/substituted")
        c.c("isprime 0", "1")
        c.c("mg 0", mh(p))
        c.c("rndoff")
        c.tag("prime/%dd" % ((p.bit_length() + 63) // 64))
    return c


def g_comp(rng, ctx):
    """Composites (from here on with genuine random streams)."""
    c = start(rng)
    for _ in range(rng.randrange(1, 5)):
        k = rng.random()
        if k < 0.2:
            n = rng.choice((0, 1, -1, -2, -3, -7, 4, 6, 9, -rng.choice(PR), rng.randrange(1 << 20) * 2 + 4,
                            rng.randrange(1 << 200) * 2 + 4))
            cls = "trivial"
        elif k < 0.35:
            n = rng.choice(num.SMALL) * rng.choice(num.SMALL)
            cls = "small factors"
        elif k < 0.55:
            n = rng.choice(num.SMALL) * num.prime(rng, rng.choice((11, 32, 64, 100, 200)))
            cls = "one small factor"
        else:
            # two factors without special form: the acceptance probability is negligible
            b = rng.choice((40, 64, 65, 100, 130))
            if rng.random() < 0.3:
                n = proth(rng)[0] * (proth(rng)[0] if rng.random() < 0.5 else num.prime(rng, b))
                while n.bit_length() < 80:
                    n *= num.prime(rng, b)
            else:
                n = num.prime(rng, b) * num.prime(rng, b + rng.choice((0, 1, 17)))
            cls = "two large factors"
        c.c("ms 0 %s %d" % (mh(n), rng.choice((0, 4))))
        c.c("isprime 0", "0")
        c.c("mg 0", mh(n))
        c.tag("composite/" + cls)
    return c


def worst(rng):
    """A composite with about a quarter of strong liars: (2m+1)(4m+1), both prime, m odd."""
    while True:
        m = rng.randrange(600, 1 << rng.choice((14, 24, 40))) | 1
        if num.is_prime(2 * m + 1) and num.is_prime(4 * m + 1) and 2 * m + 1 > 2000:
            return (2 * m + 1) * (4 * m + 1)


def g_rate(rng, ctx):
    c = Case("rate/worst-case composites")
    c.c("seed %s" % hx(rng.randbytes(16)))
    idx = []
    N = 900
    for i in range(N):
        if i % 30 == 0:
            c.c("ms 0 %s 0" % mh(worst(rng)))
        c.c("isprime 0")
        idx.append(len(c.cmds) - 1)

    def final(outs):
        acc = sum(outs[i] == "1" for i in idx)
        if any(outs[i] not in ("0", "1") for i in idx):
            return "error reported"
        # five rounds: expected 900/1024; twelve or more has probability below 1e-10
        if acc >= 12:
            return "%d of %d worst-case composites accepted (bound 4^-5 each)" % (acc, N)
    c.final = final
    return c


def g_carm(rng, ctx):
    c = start(rng).tag("composite/Carmichael and strong pseudoprimes")
    idx = []
    for n in rng.sample(CARM, 12):
        for _ in range(4):
            c.c("ms 0 %s 0" % mh(n))
            c.c("isprime 0")
            idx.append(len(c.cmds) - 1)

    def final(outs):
        acc = sum(outs[i] != "0" for i in idx)
        if acc >= 7:
            return "%d of %d tests of pseudoprimes did not reject" % (acc, len(idx))
    c.final = final
    return c


def chernick(rng):
    """A Carmichael number (6k+1)(12k+1)(18k+1) with factors above 1009: k odd, so that its base powers reach 1 midway."""
    while True:
        k = rng.randrange(200, 1 << rng.choice((10, 16, 24, 40, 60, 90))) | 1
        f = 6 * k + 1, 12 * k + 1, 18 * k + 1
        if f[0] > 1020 and all(num.is_prime(x) for x in f):
            return f[0] * f[1] * f[2]


def g_chernick(rng, ctx):
    """At most a quarter of the bases pass a round (far fewer here), five rounds: fewer than one in a thousand accepted."""
    c = start(rng).tag("composite/Carmichael with large factors")
    idx = []
    for _ in range(30):
        n = chernick(rng)
        for _ in range(6):
            c.c("ms 0 %s %d" % (mh(n), rng.choice((0, 4))))
            c.c("isprime 0")
            idx.append(len(c.cmds) - 1)

    def final(outs):
        acc = sum(outs[i] != "0" for i in idx)
        if acc >= 7:
            return "%d of %d tests of Carmichael numbers did not reject" % (acc, len(idx))
    c.final = final
    return c


def g_gen(rng, ctx):
    c = start(rng)
    bits = rng.choice((8, 16, 24, 32, 40, 56, 64, 64, 72, 80, 96, 120, 128, 136, 192, 256))
    if rng.random() < 0.5:
        c.c("ms 0 %s %d" % (mh(gen.integer(rng, 800)), rng.choice((0, 3, 40))))
    if rng.random() < 0.4:
        c.c("rnd %s" % hx(stream(rng, bits // 8)))
    lim = rng.choice(("n", "n", 1, 2, 3, 10, 50))
    c.c("prime 0 %d %s" % (bits, lim))
    c.c("mg 0")
    i = len(c.cmds) - 2
    c.c("rndoff")

    def final(outs):
        ret, _, it = outs[i].partition(",")
        if ret != "0":
            if lim == "n":
                return "no prime of %d bits found: %s" % (bits, outs[i])
            return None if int(ret) < 0 and int(it) <= lim else "wrong failure report %s" % outs[i]
        p = val(outs[i + 1])
        if p.bit_length() != bits or p >> (bits - 2) != 3:
            return "%x has not %d bits with the two top ones set" % (p, bits)
        if lim != "n" and int(it) > lim:
            return "more than the allowed %d iterations" % lim
        if not num.is_prime(p):
            return "%x is not prime" % p
    c.final = final
    return c.tag("gen/%d" % bits, "gen/limit %s" % (lim != "n"))


def g_last(rng, ctx):
    """A limit of one iteration can succeed."""
    c = start(rng)
    idx = []
    for _ in range(150):
        c.c("prime 0 16 1")
        c.c("mg 0")
        idx.append(len(c.cmds) - 2)

    def final(outs):
        good = 0
        for i in idx:
            if outs[i].startswith("0,"):
                good += 1
                if not num.is_prime(val(outs[i + 1])):
                    return "not prime: " + outs[i + 1]
        if good == 0:
            return "150 searches of one iteration each: none succeeds"
    c.final = final
    return c.tag("gen/last iteration")


def cases(rng, w, count, ctx):
    top = 12000 if ctx["tier"] == "quick" else 200000
    for lo in range(0, top, 400):       # every small number: trial division decides below 1009^2
        c = start(rng).tag("exhaustive small numbers")
        for n in range(lo + w, lo + 400, 8):
            c.c("ms 0 %s 0" % mh(n))
            c.c("isprime 0", str(int(num.is_prime(n))))
        yield c
    for i in range(count):
        k = rng.random()
        if i % 250 == 7:
            yield g_rate(rng, ctx)
        elif i % 250 == 8:
            yield g_last(rng, ctx)
        elif i % 250 in (9, 10, 11, 12):
            yield g_spread(rng, ctx)
        elif i % 50 == 13:
            yield g_carm(rng, ctx)
        elif i % 100 == 14:
            yield g_chernick(rng, ctx)
        elif k < 0.30:
            yield g_rand(rng, ctx)
        elif k < 0.50:
            yield g_range(rng, ctx)
        elif k < 0.72:
            yield g_prime(rng, ctx)
        elif k < 0.88:
            yield g_comp(rng, ctx)
        else:
            yield g_gen(rng, ctx)


def check(run):
    n = 1000 if run.tier == "quick" else 8000
    run.sweep(cases, run.bins("asan", "rel"), n, batch=100)
    run.sweep(large, run.bins("rel"), 1 if run.tier == "quick" else 8, cpu=400, label="large")
    return run.finish("exploration", RULE,
                      ["acceptance of composites is judged statistically; thresholds have error probability below 1e-9"],
                      require=("rate/worst-case composites", "gen/last iteration", "prime/substituted", "prime/Proth 256", "large 2048", "composite/Carmichael with large factors"))
