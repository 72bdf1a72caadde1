from vlib.engine import Case, hx
from vlib import gen

RULE = ("All relative positions of destination and source(s) in one area for sizes 0..N (two operands: every offset pair; "
        "three operands: every offset triple for small sizes, random triples for sizes up to 80, larger sizes up to 700 "
        "in random overlaps), separate exact-size buffers, random alignment. The whole area is compared with the "
        "byte-wise result on the original contents, so a byte outside the destination that changes is seen. Distinct by "
        "hash of all commands."
        " Long layer: areas beyond 2^16 bytes in every overlap, and single calls beyond 2^32 bytes at odd offsets.")


def x1(c, area, d, s, n):
    e = bytearray(area)
    e[d:d + n] = bytes(a ^ b for a, b in zip(area[d:d + n], area[s:s + n]))
    c.c("xor %s %d %d %d" % (hx(area), d, s, n), hx(bytes(e)))


def x2(c, area, d, s, t, n):
    e = bytearray(area)
    e[d:d + n] = bytes(a ^ b for a, b in zip(area[s:s + n], area[t:t + n]))
    c.c("xor2 %s %d %d %d %d" % (hx(area), d, s, t, n), hx(bytes(e)))
    lo, hi = min(s, t), max(s, t)
    if n == 0:
        k = "empty"
    elif d <= lo:
        k = "below"
    elif d >= hi:
        k = "above"
    elif d + n <= hi and d >= lo + n:
        k = "between, disjoint"
    elif lo + n <= hi:
        k = "spans both" if d < lo + n and d + n > hi else "touches one"
    else:
        k = "all overlap"
    c.tag(k)


def cases(rng, w, count, ctx):
    j = 0
    for n in range(0, ctx["n1"] + 1):
        c = None
        for d in range(0, 2 * n + 2):
            for s in range(0, 2 * n + 2):
                j += 1
                if j % 8 != w:
                    continue
                if c is None or len(c.cmds) > 40:
                    if c:
                        yield c
                    c = Case("two operands size %d" % n).c("mis %d" % rng.randrange(16))
                x1(c, rng.randbytes(3 * n + 1), d, s, n)
        if c:
            yield c
    for n in range(0, ctx["n2"] + 1):
        c = None
        span = 2 * n + 2
        for d in range(0, span):
            for s in range(0, span):
                for t in range(0, span):
                    if min(d, s, t) != 0:
                        continue
                    j += 1
                    if j % 8 != w:
                        continue
                    if c is None or len(c.cmds) > 40:
                        if c:
                            yield c
                        c = Case("three operands size %d" % n).c("mis %d" % rng.randrange(16))
                    x2(c, rng.randbytes(3 * n + 1), d, s, t, n)
        if c:
            yield c
    for i in range(count):
        n = rng.randrange(1, 80) if i % 3 else gen.length(rng, 700, 16, ctx["consts"])
        c = Case("random")
        c.c("mis %d" % rng.randrange(16))
        for _ in range(6):
            size = n + rng.randrange(0, 2 * n + 2)
            area = gen.data_bytes(rng, size)
            o = [rng.randrange(0, size - n + 1) for _ in range(3)]
            x2(c, area, o[0], o[1], o[2], n)
            x1(c, area, o[0], o[1], n)
            if n >= 3:
                # destination that spans the end of one source and the start of the other
                gap = rng.randrange(0, n - 1)
                s, t = 0, n + gap
                d = rng.randrange(gap + 1, n)
                if rng.random() < 0.5:
                    s, t = t, s
                x2(c, rng.randbytes(2 * n + gap), d, s, t, n)
        a, b = gen.data_bytes(rng, n), gen.data_bytes(rng, n)
        e = hx(bytes(x ^ y for x, y in zip(a, b)))
        c.c("xord %s %s" % (hx(a), hx(b)), e).c("xor2d %s %s" % (hx(a), hx(b)), e)
        yield c


def xor(a, b):
    return (int.from_bytes(a, "big") ^ int.from_bytes(b, "big")).to_bytes(len(a), "big")


def longs(rng, w, count, ctx):
    """Sizes beyond 2^16 and 2^20 in every kind of overlap."""
    sizes = [4096, 8191, 8193, 16384, 32769, 65535, 65536, 65537, 70000, 131072, 140001, 262145, 1048576, 1048579]
    for n in sizes[w::8]:
        g = rng.randrange(1, n // 3)
        for d, s, t in ((0, 0, g), (g, 0, g), (0, g, 2 * g), (2 * g, g, 0), (g, 0, 2 * g), (n - g, 0, n + 5), (n - g, n + 5, 0), (n // 2, 0, n),
                        (n // 2 + 1, n, 0), (n, 0, 2 * n), (2 * n, 0, n), (0, n, 2 * n)):
            area = rng.randbytes(3 * n)
            e = bytearray(area)
            e[d:d + n] = xor(area[s:s + n], area[t:t + n])
            yield Case("long three").c("xor2 %s %d %d %d %d" % (hx(area), d, s, t, n), hx(bytes(e)))
            e = bytearray(area)
            e[d:d + n] = xor(area[d:d + n], area[s:s + n])
            yield Case("long two").c("xor %s %d %d %d" % (hx(area), d, s, n), hx(bytes(e)))


def huge(rng, w, count, ctx):
    if w < 2:       # beyond 2^32 bytes
        yield Case("beyond 2^32").c("xorbig %d 4097 %d %d" % (w + 2, rng.randrange(5000, 9999), rng.getrandbits(40)),
                                    "right,77" if w == 0 else "right,5a")


def check(run):
    q = run.tier == "quick"
    run.sweep(cases, run.bins("asan", "rel"), 3000 if q else 12000, ctx={"n1": 24 if q else 48, "n2": 9 if q else 14})
    run.sweep(longs, run.bins("asan", "rel"), 0, cpu=120, batch=12, label="long")
    run.sweep(huge, run.bins("rel"), 0, cpu=200, label="huge")
    return run.finish("exploration", RULE, ["memory allocation succeeds (failures: C25)"],
                      require=["beyond 2^32", "long three", "long two", "empty", "below", "above", "between, disjoint", "spans both", "touches one", "all overlap"])
