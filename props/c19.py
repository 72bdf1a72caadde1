from vlib.engine import Case, hx
from vlib import gen
from vlib.ref import sym

RULE = ("Wrapping and unwrapping with 16/24/32-byte keys and data of 2..~60 blocks densely, up to hundreds of blocks "
        "(step counters beyond one byte), compared with an independent RFC 3394; up to 43700 blocks and 2.8 million blocks (step counters "
        "beyond two and three bytes) compared with a reference inside the driver that uses the public AES only. Then unwrapping of tampered wraps: "
        "every byte position of short ones, random bits, swapped blocks, a removed or added block, other keys, "
        "wraps of other check values (each byte off), and random data: error code and all-zero output demanded unless the reference accepts. Distinct by hash of all "
        "commands.")


def judge_unwrap(kek, ct):
    d = sym.unwrap(kek, ct)
    if d is None:
        return "-1,%s" % hx(bytes(len(ct) - 8))
    return "0,%s" % hx(d)


def bad(z):
    def f(o):
        r, _, h = o.partition(",")
        if r == "0":
            return "corrupted wrap accepted"
        if h != z:
            return "key data returned after an error"
        return None
    return f


def one(rng, n, kl):
    kek, d = gen.data_bytes(rng, kl), gen.data_bytes(rng, 8 * n)
    w = sym.wrap(kek, d)
    c = Case("blocks %s" % (n if n < 45 else ">=45" if n < 300 else ">=300"), "kek %d" % kl)
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF, 0xA6))).c("mis %d" % rng.randrange(16))
    c.c("wrap %s %s" % (hx(d), hx(kek)), "0," + hx(w))
    c.c("unwrap %s %s" % (hx(w), hx(kek)), "0," + hx(d))
    return c, kek, d, w


def tamper(rng, n, every=False):
    kl = rng.choice((16, 24, 32))
    c, kek, d, w = one(rng, n, kl)
    todo = []
    if every:
        c.tag("every byte")
        for i in range(len(w)):
            t = bytearray(w)
            t[i] ^= rng.choice((1, 0x80, 0xff, 1 << rng.randrange(8)))
            todo.append((kek, bytes(t)))
    for _ in range(6):
        t = bytearray(w)
        k2 = kek
        r = rng.randrange(7)
        if r == 0:
            for _ in range(rng.randrange(1, 4)):
                t[rng.randrange(len(t))] ^= rng.randrange(1, 256)
        elif r == 1:
            i, j = rng.sample(range(n + 1), 2)
            t[8*i:8*i+8], t[8*j:8*j+8] = t[8*j:8*j+8], t[8*i:8*i+8]
        elif r == 2 and n > 2:
            i = rng.randrange(n + 1)
            del t[8*i:8*i+8]
        elif r == 3:
            i = rng.randrange(n + 2)
            t[8*i:8*i] = rng.randbytes(8)
        elif r == 4:
            k = bytearray(kek)
            k[rng.randrange(kl)] ^= 1 << rng.randrange(8)
            k2 = bytes(k)
        elif r == 5:
            k2 = rng.randbytes(rng.choice((16, 24, 32)))
        else:
            t = bytearray(rng.randbytes(len(t)))
        c.tag("tamper %d" % r)
        todo.append((k2, bytes(t)))
    # the right key, but a check value that is off in single bytes or bits
    for i in range(8) if every else [rng.randrange(8)]:
        a = bytearray(b"\xa6" * 8)
        a[i] ^= rng.choice((0xa6, 0xff, 1 << rng.randrange(8)))
        if rng.random() < 0.2:
            a[rng.randrange(8)] ^= 1 << rng.randrange(8)
        c.tag("check value")
        todo.append((kek, sym.wrap(kek, d, bytes(a))))
    for k2, t in todo:
        e = judge_unwrap(k2, t)
        if e[0] == "0":
            c.c("unwrap %s %s" % (hx(t), hx(k2)), e)
        else:
            c.c("unwrap %s %s" % (hx(t), hx(k2)), bad(e[3:]))
    c.c("unwrap %s %s" % (hx(w), hx(kek)), "0," + hx(d))
    return c


def cases(rng, w, count, ctx):
    for n in range(2 + w, 62, 8):
        for kl in (16, 24, 32):
            yield one(rng, n, kl)[0]
    if w == 7:
        for n in (8191, 10922, 10923, 10925, 13107, 21846, 32768, 43700):
            kl = rng.choice((16, 24, 32))
            c = Case("blocks beyond 2^16 steps" if n > 10922 else "blocks >=300", "kek %d" % kl)
            c.c("wrapbig ~%d:%d %s" % (8 * n, rng.randrange(1 << 20), hx(rng.randbytes(kl))), "0,right,0,right")
            yield c
    for n in ctx["long"][w::8]:
        yield one(rng, n, rng.choice((16, 24, 32)))[0]
    for i in range(count):
        yield tamper(rng, rng.choice((2, 3, 4, 5, 8, rng.randrange(2, 50))), i % 5 == 0)


def check(run):
    q = run.tier == "quick"
    longs = [64, 85, 86, 100, 128, 170, 200, 256, 300, 400, 11000 // 6 if not q else 512]
    run.sweep(cases, run.bins("asan", "rel"), 40 if q else 500, ctx={"long": longs})
    import random
    rng = random.Random("%d/huge" % run.seed)
    c = Case("blocks beyond 2^24 steps").c("wrapbig ~%d:%d %s" % (8 * 2800000, rng.randrange(1 << 20), hx(rng.randbytes(16))), "0,right,0,right")
    run.one([c], run.bins("rel"), cpu=200)
    return run.finish("exploration", RULE, ["out-of-place use", "AES itself is judged by C07"],
                      require=["blocks >=45", "blocks >=300", "blocks beyond 2^16 steps", "blocks beyond 2^24 steps", "every byte", "check value"] + ["tamper %d" % r for r in range(7)])
