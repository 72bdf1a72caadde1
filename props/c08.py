from vlib.engine import Case, hx
from vlib import gen, longrun
from vlib.ref import sym
from props.c07 import key

RULE = ("Histories per mode (CBC, CTR, CFB, CFB-8) and cipher (AES-128/192/256, DES, Triple-DES): IVs random, all-ones "
        "and with counters about to carry over 1..16 bytes; messages of 0..~1100 bytes split into consecutive calls at "
        "block boundaries (any byte for CFB-8; for CTR also inside a block, which uses up the counter of that block), each call in place or out of place, random alignment, changes of "
        "direction, IV and key in between, two contexts interleaved. Outputs are compared with SP 800-38A computed "
        "independently, including the chaining state implied by the following calls. Distinct by hash of all commands."
        " Long layer: single calls beyond 2^16, 2^20 and (thorough) 2^32 bytes, the result compared with small calls "
        "on a second context.")


def iv(rng, n):
    k = rng.random()
    if k < 0.25:
        return b"\xff" * n
    if k < 0.55:
        t = rng.randrange(0, n + 1)
        v = int.from_bytes(rng.randbytes(n - t) + b"\xff" * t, "big") - rng.randrange(0, 6)
        return (v % (1 << (8 * n))).to_bytes(n, "big")
    return gen.data_bytes(rng, n)


def hist(rng, ctx, mode=None):
    c = Case()
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    c.c("mis %d" % rng.randrange(16))
    st = {}
    for s in (0, 1):
        m = mode or rng.choice(("cbc", "ctr", "cfb", "cfb8"))
        ciph = rng.choice(("aes", "aes", "des"))
        k = key(rng, ciph)
        v = iv(rng, sym.BS[ciph])
        c.c("ci %d %s %s" % (s, m[:3], ciph))
        c.c("ck %d %s" % (s, hx(k)))
        c.c("civ %d %s" % (s, hx(v)))
        st[s] = [m, ciph, k, v]
    for _ in range(rng.randrange(1, 6)):
        s = rng.randrange(2)
        m, ciph, k, v = st[s]
        bs = sym.BS[ciph]
        r = rng.random()
        if r < 0.15:
            v = iv(rng, bs)
            c.c("civ %d %s" % (s, hx(v)))
        elif r < 0.22:
            k = key(rng, ciph, len(k))
            c.c("ck %d %s" % (s, hx(k)))
        dec = rng.random() < 0.5
        top = {"cbc": 1100, "ctr": 700, "cfb": 300, "cfb8": 70}[m]
        if ciph == "des":
            top //= 2
        n = gen.length(rng, top, bs, ctx["consts"])
        if m == "cbc":
            n -= n % bs
        # the message of this round, in consecutive pieces
        end = False
        pieces = gen.chunks(rng, n, 1 if m == "cfb8" or m == "ctr" and rng.random() < 0.3 else bs, True) or [0]
        for p in pieces:
            d = gen.data_bytes(rng, p)
            if m == "cbc":
                o, v = sym.cbc(ciph, k, v, d, dec)
            elif m == "ctr":
                o, v = sym.ctr(ciph, k, v, d)
            elif m == "cfb":
                o, v = sym.cfb(ciph, k, v, d, dec)
            else:
                o, v = sym.cfb8(ciph, k, v, d, dec)
            inp = rng.random() < 0.5
            op = ("e" if not dec else "d") + ("i" if inp else "o") + ("8" if m == "cfb8" else "")
            c.c("%s %d %s" % (op, s, hx(d)), hx(o))
            c.tag("%s/%s%d/%s" % (m, ciph, len(k), op[:2]),
                  "%s/%s size%%bs=%s" % (m, op[1], "0" if p % bs == 0 else "x"))
            if p == 0:
                c.tag("%s/%s empty" % (m, op[0]))
            if p % bs and m == "cfb":
                end = True
            if p % bs and m == "ctr":
                c.tag("ctr continues after a part of a block")
        c.tag("%s pieces=%d" % (m, min(len(pieces), 4)))
        if end:
            v = iv(rng, bs)             # a stream that ended inside a block starts afresh
            c.c("civ %d %s" % (s, hx(v)))
        st[s] = [m, ciph, k, v]
    return c


def roundtrip(rng, ctx):
    """Encrypt on one context and decrypt on another one, with different splits."""
    m = rng.choice(("cbc", "ctr", "cfb", "cfb8"))
    ciph = rng.choice(("aes", "des"))
    bs = sym.BS[ciph]
    k, v = key(rng, ciph), iv(rng, bs)
    n = gen.length(rng, 60 if m == "cfb8" else 1500 if ciph == "aes" else 300, bs, ctx["consts"])
    if rng.random() < 0.03:
        n = rng.randrange(0, 400 if m == "cfb8" else 9000 if ciph == "aes" else 3000)
    if m == "cbc":
        n -= n % bs
    d = gen.data_bytes(rng, n)
    f = {"cbc": lambda x: sym.cbc(ciph, k, v, x, False)[0], "ctr": lambda x: sym.ctr(ciph, k, v, x)[0],
         "cfb": lambda x: sym.cfb(ciph, k, v, x, False)[0], "cfb8": lambda x: sym.cfb8(ciph, k, v, x, False)[0]}[m]
    e = f(d)
    c = Case("roundtrip/%s/%s" % (m, ciph))
    c.c("mis %d" % rng.randrange(16))
    for s, x, y, op in ((0, d, e, "e"), (1, e, d, "d")):
        c.c("ci %d %s %s" % (s, m[:3], ciph))
        c.c("ck %d %s" % (s, hx(k)))
        c.c("civ %d %s" % (s, hx(v)))
        i = 0
        for p in gen.chunks(rng, n, 1 if m == "cfb8" else bs, True) or [0]:
            c.c("%s%s%s %d %s" % (op, rng.choice("io"), "8" if m == "cfb8" else "", s, hx(x[i:i + p])), hx(y[i:i + p]))
            i += p
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        yield roundtrip(rng, ctx) if i % 3 == 0 else hist(rng, ctx)


def longs(rng, w, count, ctx):
    """Single calls beyond 2^16 bytes and blocks against short calls."""
    jobs = [(m, "aes", op, n) for m in ("cbc", "ctr", "cfb") for op in ("eo", "ei", "do", "di") for n in longrun.sizes(rng, 16)]
    jobs += [("cfb8", "aes", op, 65536 + rng.randrange(1, 999)) for op in ("eo", "ei", "do", "di")]
    jobs += [(m, "des", op, 65536 + 8 * rng.randrange(1, 40)) for m in ("cbc", "ctr", "cfb") for op in ("eo", "ei", "do", "di")]
    jobs += [(m, "aes", op, (1 << 24) + 16 * 5) for m in ("cbc", "ctr", "cfb") for op in ("eo", "ei", "do", "di")]
    jobs = jobs[w::8]
    if ctx["huge"] and w < 2:
        jobs += [(m, "aes", op, (4 << 30) + 16 * 1000) for m in ("cbc", "ctr", "cfb") for op in ("eo", "di")][w::2]
    for m, ciph, op, n in jobs:
        bs = sym.BS[ciph]
        k, v = key(rng, ciph), iv(rng, bs)
        x = hx(rng.randbytes(4 * bs))
        e = "8" if m == "cfb8" else ""
        yield longrun.pair(rng, ["ci %%d %s %s" % (m[:3], ciph), "ck %%d %s" % hx(k), "civ %%d %s" % hx(v)], op + e, n,
                           ["e%s%s %%d %s" % (rng.choice("io"), e, x), "d%s%s %%d %s" % (rng.choice("io"), e, x)],
                           "%s %s" % (m, op))


def check(run):
    n = 2500 if run.tier == "quick" else 9000
    run.sweep(cases, run.bins("asan", "rel"), n)
    req = ["%s/%s/%s" % (m, c, o) for m in ("cbc", "ctr", "cfb", "cfb8") for c in ("aes16", "aes24", "aes32", "des8", "des24")
           for o in ("ei", "eo", "di", "do")]
    run.sweep(longs, run.bins("rel"), 0, cpu=900, ctx={"huge": run.tier != "quick"}, label="long")
    return run.finish("exploration", RULE, ["IV length equals the block length", "messages end or continue at the "
                      "boundaries the interface supports (documented in the property)"], require=req)
