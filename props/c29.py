import math, os, random
from vlib import engine, sigs
from vlib.engine import Case, Violation, hx, mh
from vlib.ref import num, ec
from props import c14, c15, c16, c17

RULE = ("Long histories of draws per seed: random integers below bounds of 2..300 and of 33..521 bits, generated primes, "
        "DSA, ECDSA and ElGamal signatures over small groups (secret recovered exactly with the private key) and large "
        "ones (64..224 bits), ECDSA key generations, PKCS#1 v1.5 encryptions opened with the private key. An offline "
        "monitor over each history counts every admissible value (small ranges) or sixteenth of the range (large ones): "
        "Pearson's statistic must stay within seven standard deviations (false alarm about 1e-12; where the sources "
        "are not uniform, as for primes and padding, each value at least a quarter and at most four times as often as expected), "
        "likewise low and middle bits and residues of large values; no value outside, no repetition in large ranges, none across "
        "keys and messages used by turns; equal seeds give the same in other processes, builds and stack positions; in wide integers, primes and generated RSA, DSA and ECDSA keys every bit takes both "
        "values and none follows another; a million draws below small bounds; equal seeds give equal, different seeds different "
        "histories. Distinct by hash of all commands.")

E = 55


def skewed(counts, total, what):
    """Pearson's statistic over equally likely classes, seven standard deviations (false alarm about 1e-12)."""
    e, df = total / len(counts), len(counts) - 1
    if df < 1 or e < 40:
        return None
    x = sum((n - e) ** 2 for n in counts.values()) / e
    z = ((x / df) ** (1 / 3) - (1 - 2 / (9 * df))) / math.sqrt(2 / (9 * df))
    if z > 7:
        hi, lo = max(counts, key=counts.get), min(counts, key=counts.get)
        return "%s: uneven over %d draws (%.1f deviations): %s came out %d times, %s %d times" % (
            what, total, z, hi, counts[hi], lo, counts[lo])
    return None


def spread(counts, total, what, even=True):
    """counts: admissible value -> occurrences."""
    if even:
        bad = skewed(counts, total, what)
        if bad:
            return bad
    e = total / len(counts)
    lo = min(counts, key=counts.get)
    hi = max(counts, key=counts.get)
    if counts[lo] * 4 < e:
        return "%s: %s came out %d times, expected about %d" % (what, lo, counts[lo], e)
    if counts[hi] > 4 * e:
        return "%s: %s came out %d times, expected about %d" % (what, hi, counts[hi], e)
    return None


def tally(vals, allowed, what, even=True):
    n = dict.fromkeys(allowed, 0)
    for v in vals:
        if v not in n:
            return "%s: value %s is not admissible" % (what, v)
        n[v] += 1
    return spread(n, len(vals), what, even)


def large(vals, top, what, parts=16, lo=0):
    if len(set(vals)) != len(vals):
        return "%s: a value came out twice" % what
    n = dict.fromkeys(range(parts), 0)
    for v in vals:
        if not lo <= v < top:
            return "%s: out of range" % what
        n[(v - lo) * parts // (top - lo)] += 1
    bad = spread(n, len(vals), what)
    for sh in (0, top.bit_length() // 2):       # the low bits, and some in the middle
        if not bad and top.bit_length() > 2 * sh + 20:
            n = dict.fromkeys(range(parts), 0)
            for v in vals:
                n[(v >> sh) % parts] += 1
            bad = spread(n, len(vals), what + ", bits %d.." % sh)
    for mod in (3, 5, 7):
        if not bad and top.bit_length() > 30:
            n = dict.fromkeys(range(mod), 0)
            for v in vals:
                n[v % mod] += 1
            bad = spread(n, len(vals), what + ", modulo %d" % mod)
    return bad


def alive(vals, lo, hi, what):
    """Each bit takes both values, and no bit follows another one some bytes away (44 values: false alarm 2^-43 per bit)."""
    if len(vals) < 44:
        return None
    if len(set(vals)) != len(vals) and hi - lo > 100:
        return "%s: a value came out twice" % what
    for d in (0, 8, 16, 32, 64, 128):
        for i in range(lo, hi - d):
            s = sum((v >> i ^ (v >> (i + d) if d else 0)) & 1 for v in vals)
            if s in (0, len(vals)):
                return "%s: bit %d %s in %d values" % (what, i, "follows bit %d" % (i + d) if d else "is always %d" % (s > 0), len(vals))
    return None


def start(rng, *t):
    return Case(*t).c("fill %d" % rng.choice((0, 0xA5))).c("seed %s" % rng.randbytes(rng.choice((16, 32, 32, 48))).hex())


def ints(rng, small):
    c = start(rng, "integers %s" % ("small" if small else "large"))
    if small:
        mx = rng.choice((2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, rng.randrange(2, 300)))
    else:
        b = rng.choice((33, 63, 64, 65, 128, 129, 160, 256, 521))
        mx = rng.choice((rng.getrandbits(b) | 1 << (b - 1), (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) + 1))
    n = E * mx if small else E * 16
    c.c("ms 0 %s 0" % mh(mx)).c("ms 1 0 0")
    k = len(c.cmds)
    for _ in range(n):
        c.c("rrange 1 0").c("mg 1")

    def fin(o):
        v = [int(x.split(",")[0], 16) for x in o[k + 1::2]]
        w = "random integer below %x" % mx
        return tally(v, range(mx), w) if small else large(v, mx, w)
    c.final = fin
    return c


def hist(rng, n):
    """Many draws below a small bound: finds a small preference too."""
    mx = rng.choice((3, 5, 6, 7, 11, 13, 21, 23, 43, 61, 85, 86, 97, 107, 171, 213, rng.randrange(3, 257)))
    c = start(rng, "integers, long history")
    c.c("ms 0 %s 0" % mh(mx)).c("ms 1 0 0")
    k = len(c.cmds)
    c.c("rhist 1 0 %d" % n)

    def fin(o):
        v = [int(x) for x in o[k].split(",")]
        if v[-1] or v[-2] or sum(v) != n:
            return "random integer below %d: %d failed, %d out of range" % (mx, v[-1], v[-2])
        return spread(dict(enumerate(v[:-2])), n, "random integer below %d" % mx)
    c.final = fin
    return c


def fixed(rng):
    """Integers of n bits: all patterns below the top bit."""
    b = rng.choice((2, 3, 5, 7, 8, 9))
    c = start(rng, "integers of n bits")
    c.c("ms 1 0 0")
    k = len(c.cmds)
    for _ in range(E << (b - 1)):
        c.c("rand 1 %d" % b).c("mg 1")
    c.final = lambda o: tally([int(x.split(",")[0], 16) for x in o[k + 1::2]], range(1 << (b - 1), 1 << b), "random integer of %d bits" % b)
    return c


def wide(rng):
    """Integers and primes of many bits."""
    b = rng.choice((64, 65, 127, 128, 160, 200, 256, 257, 512, 521, rng.randrange(40, 600)))
    pb = rng.choice((40, 48, 64, 72, 96, 128))
    c = start(rng, "wide integers and primes")
    c.c("ms 1 0 0")
    k = len(c.cmds)
    for _ in range(60):
        c.c("rand 1 %d" % b).c("mg 1")
    for _ in range(48):
        c.c("prime 1 %d n" % pb).c("mg 1")

    def fin(o):
        v = [int(x.split(",")[0], 16) for x in o[k + 1::2]]
        if any(x.bit_length() != b for x in v[:60]) or any(x.bit_length() != pb for x in v[60:]):
            return "not of the requested length"
        return alive(v[:60], 0, b - 1, "random integer of %d bits" % b) or alive(v[60:], 1, pb - 2, "prime of %d bits" % pb)
    c.final = fin
    return c


def primes(rng):
    c = start(rng, "primes")
    c.c("ms 1 0 0")
    k = len(c.cmds)
    for _ in range(E * 8):
        c.c("prime 1 16 n").c("mg 1")

    def fin(o):
        n = dict.fromkeys(range(8), 0)
        for x in o[k + 1::2]:
            v = int(x.split(",")[0], 16)
            if not 0xc000 <= v < 0x10000:
                return "prime %x does not have the requested length" % v
            n[(v - 0xc000) * 8 // 0x4000] += 1
        return spread(n, E * 8, "generated primes", False)
    c.final = fin
    return c


def pairs(o, k):
    out = []
    for x in o[k:]:
        f = x.split(",")
        if f[0] != "0":
            return None
        out.append((int(f[1], 16), int(f[2], 16)))
    return out


def dsa(rng, small):
    while True:
        qb = rng.choice((4, 5, 6)) if small else rng.choice((64, 80, 160))
        par = p, q, g = c15.params(rng, qb, qb + (12 if small else 60))
        x = rng.randrange(1, q)
        m = sigs.message(rng, q)
        z = sigs.digest(q, m)
        good = [k for k in range(1, q) if all(c15.made(par, x, z, k))] if small else None
        if not small or len(good) >= 3:
            break
    c = start(rng, "dsa %s" % ("small" if small else "large"))
    c15.load(c, 0, par, x, None)
    b = len(c.cmds)
    for _ in range(E * len(good) if small else E * 16):
        c.c("sign 0 %s" % hx(m))

    def fin(o):
        ps = pairs(o, b)
        if ps is None:
            return "signing failed"
        ks = [(z + x * r) * pow(s, -1, q) % q for r, s in ps]
        if any(pow(g, k, p) % q != r for k, (r, s) in zip(ks, ps)):
            return "not a signature"
        return tally(ks, good, "DSA secret") if small else large(ks, q, "DSA secret")
    c.final = fin
    return c


def ecdsa(rng, gid):
    while True:
        cv = ec.CURVES[gid] if gid is not None else ec.small_prime_order(rng, 11, 60)[0]
        n = cv.n
        d = rng.randrange(1, n)
        m = sigs.message(rng, n)
        z = sigs.digest(n, m)
        good = [k for k in range(1, n) if all(c16.made(cv, d, z, k))] if gid is None else None
        if gid is not None or len(good) >= 3:
            break
    c = start(rng, "ecdsa %s" % ("small" if gid is None else "large"))
    c16.load(c, 0, cv, gid, d, None)
    b = len(c.cmds)
    for _ in range(E * len(good) if gid is None else E * 4):
        c.c("sign 0 %s" % hx(m))

    def fin(o):
        ps = pairs(o, b)
        if ps is None:
            return "signing failed"
        ks = [(z + d * r) * pow(s, -1, n) % n for r, s in ps]
        return tally(ks, good, "ECDSA secret") if gid is None else large(ks, n, "ECDSA secret", 4)
    c.final = fin
    return c


def ecgen(rng):
    cv = ec.small_prime_order(rng, 11, 60)[0]
    c = start(rng, "ecdsa private keys")
    c16.load(c, 0, cv, None, None, None)
    b = len(c.cmds)
    for _ in range(E * (cv.n - 1)):
        c.c("kgen 0 0 0", "0").c("kget 0")
    c.final = lambda o: tally([int(x.split(",")[0], 16) for x in o[b + 1::2]], range(1, cv.n), "ECDSA private key")
    return c


def bigkeys(rng, kind):
    """Generated keys of real sizes: every part of them is random."""
    c = start(rng, "generated %s keys" % kind)
    if kind == "dsa":
        c.c("kinit 0 dsa 0", "0")
        g, n = "kgen 0 0 0", 44
    elif kind == "ecdsa":
        gid = rng.choice((0, 1, 2))
        c16.load(c, 0, ec.CURVES[gid], gid, None, None)
        g, n = "kgen 0 0 0", 44
    else:
        nb = rng.choice((128, 192, 256))
        c.c("kinit 0 rsa 1", "0")
        g, n = "kgen 0 %d 0" % nb, 44
    b = len(c.cmds)
    for _ in range(n):
        c.c(g, "0").c("kget 0")

    def fin(o):
        ks = [[int(v or "0", 16) for v in x.split(",")] for x in o[b + 1::2]]
        if kind == "rsa":
            bad = None
            for i, name in ((3, "RSA prime p"), (4, "RSA prime q")):
                bad = bad or alive([k[i] for k in ks], 1, nb // 2 - 2, name)
            return bad or alive([k[1] for k in ks], 1, nb - 1, "random RSA exponent")
        if kind == "dsa":
            xs, tops = [k[3] for k in ks], [k[1] for k in ks]
            bad = (alive(tops, 1, 158, "DSA prime q") or alive([k[0] for k in ks], 320, 511, "DSA prime p") or
                   alive([k[2] for k in ks], 0, 500, "DSA generator"))
            if bad:
                return bad
        else:
            cv = ec.CURVES[gid]
            xs, tops = [k[0] for k in ks], [cv.n] * n
        nb_ = min(tops).bit_length()
        return (alive(xs, 0, nb_ - 60, "%s private key" % kind) or
                alive([(x << 64) // t for x, t in zip(xs, tops)], 4, 64, "%s private key in parts of its range" % kind))
    c.final = fin
    return c


def elgamal(rng, small):
    while True:
        p = num.prime(rng, rng.choice((5, 6, 7, 8))) if small else c17.prime(rng, rng.choice((65, 128)))
        if p < 7:
            continue
        g = rng.randrange(2, p)
        if small and len({pow(g, i, p) for i in range(p - 1)}) < p - 1:
            continue
        d = rng.randrange(1, p - 1)
        m = c17.message(rng, p)
        z = int.from_bytes(m, "big")
        good = [k for k in range(1, p - 1) if math.gcd(k, p - 1) == 1 and c17.made(p, g, d, z, k)[1]] if small else None
        if not small or len(good) >= 2:
            break
    c = start(rng, "elgamal %s" % ("small" if small else "large"))
    c17.load(c, 0, (p, g, 0), d, False)
    b = len(c.cmds)
    for _ in range(E * len(good) if small else E * 4):
        c.c("sign 0 %s" % hx(m))
    log = {pow(g, k, p): k for k in range(1, p - 1)} if small else None

    def fin(o):
        ps = pairs(o, b)
        if ps is None:
            return "signing failed"
        if small:
            return tally([log.get(r) for r, s in ps], good, "ElGamal secret")
        if len({r for r, s in ps}) < len(ps) - len(ps) // 20:
            return "ElGamal secret: a value came out twice"
        ks = [(z - d * r) * pow(s, -1, p - 1) % (p - 1) for r, s in ps if math.gcd(s, p - 1) == 1]
        if any(pow(g, k, p) != r for k, (r, s) in zip(ks, [t for t in ps if math.gcd(t[1], p - 1) == 1])):
            return "not a signature"
        return (alive(ks, 1, p.bit_length() - 20, "ElGamal secret") or
                alive([(k << 32) // p for k in ks], 2, 32, "ElGamal secret in parts of its range"))
    c.final = fin
    return c


def padding(rng):
    n, e, d = c14.key(rng, None, rng.choice((256, 512, 520, 640, 1024, 2048)))
    m = c14.size(n)
    x = rng.randbytes(rng.randrange(0, 6))
    c = start(rng, "padding")
    c14.load(c, 0, (n, e, d), 1)
    b = len(c.cmds)
    cnt = E * 255 // (m - 3 - len(x)) + 1
    for _ in range(cnt):
        c.c("renc 0 %s" % hx(x))

    def fin(o):
        pads = []
        for t in o[b:]:
            f = t.split(",")
            if f[0] != "0":
                return "encryption failed"
            blk = pow(int(f[2], 16), d, n).to_bytes(m, "big")
            if blk[:2] != b"\0\2" or blk[m - len(x) - 1] != 0:
                return "not a PKCS#1 block"
            pads.append(blk[2:m - 1 - len(x)])
        if len(set(pads)) != len(pads):
            return "padding repeated"
        for i in range(len(pads[0])):
            if len(pads) > 200 and len({q[i] for q in pads}) < 40:
                return "padding byte %d takes only few values" % i
        return tally([v for q in pads for v in q], range(1, 256), "padding byte", False)
    c.final = fin
    return c


def mixed(rng):
    """Several keys and messages by turns: no secret is ever used again, under whatever key."""
    c = start(rng, "several keys by turns")
    par = p, q, g = c15.params(rng, rng.choice((80, 160)), 200)
    xs = [rng.randrange(1, q) for _ in range(2)]
    for i in (0, 1):
        c15.load(c, i, par, xs[i], None)
    cv = ec.CURVES[0]
    ds = [rng.randrange(1, cv.n) for _ in range(2)]
    for i in (0, 1):
        c16.load(c, 2 + i, cv, 0, ds[i], None)
    n, e, d = c14.key(rng, None, rng.choice((512, 640, 1024)))
    m = c14.size(n)
    c14.load(c, 4, (n, e, d), 1)
    ep = c17.prime(rng, 128)
    ed = rng.randrange(1, ep - 1)
    c17.load(c, 5, (ep, rng.randrange(2, ep), 0), ed, False)
    msgs = [sigs.message(rng, q) for _ in range(3)]
    what = []
    for _ in range(rng.choice((30, 60))):
        i, t = rng.randrange(6), rng.choice(msgs)
        if i == 5:
            t = c17.message(rng, ep)
        if i == 4:
            t = t[:m - 11 - 16]
        if i < 2 and rng.random() < 0.2:
            xs[i] = rng.randrange(1, q)
            c.c("kset %d x %s" % (i, mh(xs[i])))
        what.append((len(c.cmds), i, t, xs[i] if i < 2 else None))
        c.c("%s %d %s" % ("renc" if i == 4 else "sign", i, hx(t)))

    def fin(o):
        seen = {}
        for k, i, t, x in what:
            f = o[k].split(",")
            if f[0] != "0":
                return "operation failed"
            if i == 4:
                v = pow(int(f[2], 16), d, n).to_bytes(m, "big")[2:18]
            elif i == 5:
                v = int(f[1], 16)
            else:
                r, s = int(f[1], 16), int(f[2], 16)
                md, key = (q, x) if i < 2 else (cv.n, ds[i - 2])
                v = (sigs.digest(md, t) + key * r) * pow(s, -1, md) % md
                v = min(v, md - v)
            key = (i // 2 if i < 4 else i, v)
            if key in seen:
                return "a secret came out twice (operations %d and %d)" % (seen[key], k)
            seen[key] = k
        return None
    c.final = fin
    return c


def rsakeys(rng):
    c = start(rng, "rsa primes")
    c.c("kinit 0 rsa 1", "0")
    b = len(c.cmds)
    for _ in range(12):
        c.c("kgen 0 128 65537", "0").c("kget 0")

    def fin(o):
        ps = [v for x in o[b + 1::2] for v in x.split(",")[3:5]]
        return None if len(set(ps)) == len(ps) else "a prime came out twice"
    c.final = fin
    return c


def seeds(rng):
    """Same seed: same history; another seed: another one."""
    c = Case("seeds")
    par = c15.params(rng, 80, 140)
    x, y = rng.randrange(1, par[1]), 1
    c15.load(c, 0, par, x, None)
    n, e, d = c14.key(rng, None, 256)
    c14.load(c, 1, (n, e, d), 1)
    cv = ec.CURVES[0]
    c16.load(c, 2, cv, 0, rng.randrange(1, cv.n), None)
    p = c17.prime(rng, 128)
    c17.load(c, 3, (p, rng.randrange(2, p), 0), rng.randrange(1, p - 1), False)
    b = len(c.cmds)
    s1, s2 = rng.randbytes(32), rng.randbytes(32)
    m = rng.randbytes(8)
    ops = ["sign 0 %s" % hx(m), "renc 1 %s" % hx(m), "sign 2 %s" % hx(m), "sign 3 %s" % hx(m), "kgen 2 0 0 ; kget 2"]
    rng.shuffle(ops)
    ops = [t for t in ops if t[0] != "k"] + [t for t in ops if t[0] == "k"]
    flat = [u for t in ops for u in t.split(" ; ")]
    k = len(flat) + 1
    for i in range(3):
        c.c("seed %s" % (s2 if i == 1 else s1).hex())
        if i:                                   # the last key generation changed this one
            pass
        for u in flat:
            c.c(u)
    # restore the private key so that the histories can be compared
    keep = [i for i, u in enumerate(flat) if u.split()[:2] != ["sign", "2"] and not u.startswith("kgen")]

    def fin(o):
        r = [o[b + 1 + i * k:b + (i + 1) * k] for i in range(3)]
        for i in keep:
            if r[0][i] != r[2][i]:
                return "same seed, different output of %s" % flat[i]
            if r[0][i] == r[1][i]:
                return "different seeds, same output of %s" % flat[i]
        return None
    c.final = fin
    return c


def cases(rng, w, count, ctx):
    fs = [lambda: ints(rng, True), lambda: ints(rng, False), lambda: fixed(rng), lambda: primes(rng), lambda: dsa(rng, True),
          lambda: dsa(rng, False), lambda: ecdsa(rng, None), lambda: ecgen(rng), lambda: elgamal(rng, True),
          lambda: elgamal(rng, False), lambda: padding(rng), lambda: rsakeys(rng), lambda: seeds(rng),
          lambda: ints(rng, True), lambda: wide(rng), lambda: bigkeys(rng, "rsa"), lambda: mixed(rng), lambda: hist(rng, ctx["hist"])]
    for i in range(count):
        for f in fs:
            yield f()
        if (i + w) % 4 == 0:
            yield ecdsa(rng, 0)
        if (i + w) % 4 == 1:
            yield bigkeys(rng, "ecdsa")
        if (i + w) % 4 == 2:
            yield bigkeys(rng, "dsa")


def again(run, rng, bins):
    """The same commands after the same seeds in other processes, builds and positions of the stack and the environment."""
    cs = [f(rng) for f in (seeds, seeds, seeds, padding, mixed, rsakeys, lambda r: bigkeys(r, "ecdsa"), lambda r: elgamal(r, True),
                           lambda r: dsa(r, True), primes, lambda r: ints(r, False), wide)]
    lines = [c.line(i) for i, c in enumerate(cs)]
    first = None
    for name, b in bins:
        for pad in (0, 1500, 6000, 21000, 70001) if name == "rel" else (0,):
            os.environ["VERIF_PAD"] = "x" * pad
            try:
                outs, rc, err = engine.run_driver(b, lines, run.tree.dir, "again", 120)
            finally:
                del os.environ["VERIF_PAD"]
            if rc != 0:
                run.errors.append("the repeated runs did not end: rc=%d %s" % (rc, err[-200:]))
                return
            first = first or outs
            for k, (x, y) in enumerate(zip(first, outs)):
                if x != y:
                    run.viol.append(Violation(
                        prop="C29", variant=name, kind="oracle", what="same seed, another process or build, other results: %s / %s"
                        % (engine.diffpart(x, y), engine.diffpart(y, x)), known=None, case=lines[k], observed=y, info=None))
                    return
            run.judged += len(lines)
    run.ncase += len(cs)
    run.tags["again in other processes"] = len(cs)


def check(run):
    q = run.tier == "quick"
    run.sweep(cases, run.bins("rel"), 6 if q else 60, batch=4, cpu=120, ctx={"hist": 1000000 if q else 20000000})
    again(run, random.Random("%s/C29/again" % run.seed), run.bins("rel", "dbg", "clang"))
    return run.finish("exploration", RULE, ["the default generator itself is judged by C23 (its stream is compared with AES-CTR)"],
                      require=["integers small", "integers large", "integers of n bits", "primes", "dsa small", "dsa large",
                               "ecdsa small", "ecdsa large", "ecdsa private keys", "elgamal small", "elgamal large", "padding",
                               "rsa primes", "seeds", "wide integers and primes", "generated rsa keys", "generated dsa keys", "generated ecdsa keys", "several keys by turns", "again in other processes", "integers, long history"])
