from vlib.engine import Case, hx
from vlib import gen, longrun
from vlib.ref import sym

RULE = ("CRC-16 CCITT, IBM, DNP and CRC-32 Ethernet: every single byte and every (byte, running value) table index, "
        "random and patterned data of 0..1500 bytes in random partitions into updates (also empty), several contexts "
        "interleaved, integer result, byte digest and one-shot function, generic initialisation with arbitrary start "
        "values and flag combinations. Compared with a bit-serial shift register. Distinct by hash of all commands."
        " Long layer: single updates beyond 2^16, 2^24 and (thorough) 2^32 bytes against small ones, long one-shot "
        "data against the model.")

# width, polynomial, start value, complement, swap (all four are reflected algorithms)
ALG = {"ccitt": (16, 0x1021, 0xFFFF, 1, 1), "ibm": (16, 0x8005, 0xFFFF, 0, 0),
       "dnp": (16, 0x3D65, 0, 1, 1), "eth": (32, 0x04C11DB7, 0xFFFFFFFF, 1, 0)}


def swap(v, w):
    return int.from_bytes(v.to_bytes(w // 8, "big"), "little")


def ref(alg, data, start=None, flags=None):
    w, poly, init, comp, sw = ALG[alg]
    if start is None:
        start = init
    if flags is not None:
        comp, sw = flags & 1, flags >> 1 & 1
    r = sym.crc_bits(data, w, poly, sym.rev(start, w), True, True, (1 << w) - 1 if comp else 0)
    return swap(r, w) if sw else r


def setup(rng, c, s, alg, generic):
    w = ALG[alg][0]
    if generic:
        st = rng.choice((0, (1 << w) - 1, rng.getrandbits(w)))
        fl = rng.randrange(4)
        c.c("crcx %d %d %d %d %s" % (s, w, st, fl, alg))
        c.tag("%s/flags %d" % (alg, fl))
        return st, fl
    c.c("ci %d %s" % (s, "crc32" if alg == "eth" else "crc16 " + alg))
    return None, None


def fin(rng, c, s, alg, v):
    w = ALG[alg][0]
    if rng.random() < 0.5:
        c.c("fin %d" % s, "%x" % v)
    else:
        c.c("dg %d" % s, v.to_bytes(w // 8, "big").hex())


def hist(rng, ctx):
    c = Case("interleaved")
    c.c("mis %d" % rng.randrange(16))
    st = {}
    for s in range(3):
        alg = rng.choice(list(ALG))
        st[s] = [alg, setup(rng, c, s, alg, rng.random() < 0.4), b""]
    for _ in range(rng.randrange(3, 15)):
        s = rng.randrange(3)
        alg, (i, f), d = st[s]
        if rng.random() < 0.8:
            x = gen.data_bytes(rng, gen.length(rng, 120, 16, ctx["consts"]))
            c.c("up %d %s" % (s, hx(x)))
            st[s][2] += x
        else:
            fin(rng, c, s, alg, ref(alg, d, i, f))
            st[s] = [alg, setup(rng, c, s, alg, rng.random() < 0.4), b""]
    for s in range(3):
        alg, (i, f), d = st[s]
        fin(rng, c, s, alg, ref(alg, d, i, f))
    return c


def table(alg, rng, b):
    """One byte from several running values, so that every table entry is used."""
    c = Case("%s/index %d" % (alg, b))
    w = ALG[alg][0]
    for st in (0, rng.getrandbits(w)):
        x = bytes([b ^ (st & 0xff)])
        c.c("crcx 0 %d %d 0 %s" % (w, st, alg)).c("up 0 %s" % hx(x))
        c.c("fin 0", "%x" % ref(alg, x, st, 0))
    x = bytes([b])
    c.c("crc %s %s" % (alg, hx(x)), "%x" % ref(alg, x))
    return c


def cases(rng, w, count, ctx):
    for alg in ALG:
        for b in range(w, 256, 8):
            yield table(alg, rng, b)
    for i in range(count):
        if i % 3:
            yield hist(rng, ctx)
        else:
            alg = rng.choice(list(ALG))
            n = gen.length(rng, 1500, 16, ctx["consts"])
            d = gen.data_bytes(rng, n)
            c = Case("%s/one shot" % alg)
            c.c("mis %d" % rng.randrange(16))
            c.c("crc %s %s" % (alg, hx(d)), "%x" % ref(alg, d))
            setup(rng, c, 0, alg, False)
            p = 0
            for m in gen.chunks(rng, n):
                c.c("up 0 %s" % hx(d[p:p + m]))
                p += m
            fin(rng, c, 0, alg, ref(alg, d))
            yield c


def longs(rng, w, count, ctx):
    """One call beyond 2^16, 2^24 and 2^32 bytes against short calls."""
    for alg in ALG:
        for n in (longrun.sizes(rng, 16) + [(1 << 24) + rng.randrange(1, 999)])[w::8] + \
                [(4 << 30) + rng.randrange(1, 999)] * (alg in list(ALG)[w::8]):
            yield longrun.pair(rng, ["crcx %%d %d %d 0 %s" % (ALG[alg][0], rng.getrandbits(ALG[alg][0]), alg)], "up", n, ["fin %d"],
                               "%s %s" % (alg, ">4G" if n >> 32 else "1"))
    for alg in list(ALG)[w::8]:
        d = rng.randbytes(65536 + rng.randrange(1, 3000))
        yield Case("%s/one shot long" % alg).c("crc %s %s" % (alg, hx(d)), "%x" % ref(alg, d))


def check(run):
    n = 4000 if run.tier == "quick" else 16000
    run.sweep(cases, run.bins("asan", "rel"), n)
    run.sweep(longs, run.bins("rel"), 0, cpu=300, label="long")
    return run.finish("exploration", RULE, [],
                      require=["%s/one shot long" % a for a in ALG] + ["long/%s >4G" % a for a in ALG] + ["%s/index %d" % (a, b) for a in ALG for b in range(256)] +
                      ["%s/flags %d" % (a, f) for a in ALG for f in range(4)])
