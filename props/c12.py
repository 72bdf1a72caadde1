import hashlib, hmac
from vlib.engine import Case, hx
from vlib import gen, longrun
from vlib.ref import sym

RULE = ("HMAC-MD5/SHA-1/SHA-256 with every key length 0..200 (and longer) and AES-128/192/256-CMAC, messages of 0..600 "
        "bytes (all lengths around block borders) in random partitions into updates (CMAC too, with empty pieces), two "
        "computations interleaved, contexts re-initialised, key and message buffers of exact size. Compared with "
        "Python's hmac and an independent RFC 4493. Distinct by hash of all commands."
        " Long layer: keys and messages beyond 2^16 bytes, updates of more than 2^22 bytes against small updates.")

LEN = {"md5": 16, "sha1": 20, "sha256": 32}


def comp(rng, ctx, kind=None, klen=None, n=None):
    """(init command, updates, expected)"""
    if kind is None:
        kind = rng.choice(("md5", "sha1", "sha256", "cmac", "cmac"))
    if kind == "cmac":
        key = gen.data_bytes(rng, klen or rng.choice((16, 16, 24, 32)))
        if n is None:
            n = gen.length(rng, 300, 16, ctx["consts"])
    else:
        if klen is None:
            klen = rng.choice((0, 1, 16, 20, 63, 64, 65, 128, rng.randrange(300)))
        key = gen.data_bytes(rng, klen)
        if n is None:
            n = gen.length(rng, 600, 64, ctx["consts"])
    d = gen.data_bytes(rng, n)
    if kind == "cmac":
        exp, init = sym.cmac(key, d), "cmac %s" % hx(key)
        tag = "cmac/%d n%%16=%d" % (len(key), n % 16)
    else:
        exp, init = hmac.new(key, d, kind).digest(), "hmac %s %s" % (kind, hx(key))
        tag = "hmac/%s key %s" % (kind, "empty" if not key else "<64" if klen < 64 else "=64" if klen == 64 else ">64")
    ups, p = [], 0
    for m in gen.chunks(rng, n):
        ups.append(d[p:p + m])
        p += m
    return init, ups, exp, tag


def hist(rng, ctx):
    c = Case()
    c.c("mis %d" % rng.randrange(16))
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    act = {}
    left = rng.randrange(2, 6)
    while left or act:
        free = [s for s in (0, 1) if s not in act]
        if free and left and rng.random() < 0.6 or not act:
            s = rng.choice(free)
            init, ups, exp, tag = comp(rng, ctx)
            c.c("ci %d %s" % (s, init))
            c.tag(tag, "updates %s" % (len(ups) if len(ups) < 3 else "many"))
            act[s] = (list(ups), exp)
            left -= 1
            continue
        s = rng.choice(list(act))
        ups, exp = act[s]
        if ups:
            c.c("up %d %s" % (s, hx(ups.pop(0))))
        elif rng.random() < 0.06:
            del act[s]                       # abandoned
        else:
            c.c("dg %d" % s, exp.hex())
            del act[s]
    return c


def one(rng, ctx, kind, klen, n):
    init, ups, exp, tag = comp(rng, ctx, kind, klen, n)
    c = Case(tag)
    c.c("mis %d" % rng.randrange(16)).c("ci 0 %s" % init)
    for u in ups:
        c.c("up 0 %s" % hx(u))
    return c.c("dg 0", exp.hex())


def cases(rng, w, count, ctx):
    for klen in range(w, 201, 8):
        for kind in LEN:
            yield one(rng, ctx, kind, klen, None)
    for n in range(w, 130, 8):
        for kind in LEN:
            yield one(rng, ctx, kind, None, n)
        for klen in (16, 24, 32):
            for _ in range(3):
                yield one(rng, ctx, "cmac", klen, n)
    for i in range(count):
        yield hist(rng, ctx)


def longs(rng, w, count, ctx):
    """Keys and messages beyond 2^16 bytes (CMAC: one call against short ones)."""
    jobs = [(kind, kl, n) for kind in LEN for kl, n in ((20, 66000), (64, 131072 + 3), (255, 9), (256, 0), (257, 9), (1000, 300), (1024, 1),
                                                        (4096, 5), (5000, 7), (65535, 3), (65536, 1), (65600, 2), (131100, 70000), (40, 1100000))]
    for kind, kl, n in jobs[w::8]:
        c = one(rng, ctx, kind, kl, n).tag("long/hmac")
        yield c
        key, d = rng.randbytes(kl), rng.randbytes(n)
        yield Case("long/hmac").c("ci 0 hmac %s %s" % (kind, hx(key))).c("up 0 %s" % hx(d)).c("dg 0", hmac.new(key, d, kind).hexdigest())
    for n in longrun.sizes(rng, 16, (65536 - 16, 65536, (1 << 22) + 16))[w::8]:
        for kl in (16, 24, 32):
            yield longrun.pair(rng, ["ci %%d cmac %s" % hx(rng.randbytes(kl))], "up", n, ["dg %d"], "cmac")
            yield longrun.pair(rng, ["ci %%d cmac %s" % hx(rng.randbytes(kl))], "up", n + rng.randrange(16), ["dg %d"], "cmac")
    if ctx["huge"] and w == 7:
        yield longrun.pair(rng, ["ci %%d cmac %s" % hx(rng.randbytes(16))], "up", (4 << 30) + 5000, ["dg %d"], "cmac")


def check(run):
    n = 4000 if run.tier == "quick" else 16000
    run.sweep(cases, run.bins("asan", "rel"), n)
    run.sweep(longs, run.bins("rel"), 0, cpu=300, ctx={"huge": run.tier != "quick"}, label="long")
    return run.finish("exploration", RULE, ["Python's hmac implements RFC 2104"],
                      require=["long/hmac", "long/cmac"] + ["cmac/%d n%%16=%d" % (k, r) for k in (16, 24, 32) for r in range(16)] +
                      ["hmac/%s key %s" % (k, x) for k in LEN for x in ("empty", "<64", "=64", ">64")])
