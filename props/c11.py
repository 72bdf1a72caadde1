import hashlib
from vlib.engine import Case, hx
from vlib import gen

KINDS = ("md5", "sha1", "sha256", "sha384", "sha512")
BLOCK = {"md5": 64, "sha1": 64, "sha256": 64, "sha384": 128, "sha512": 128}

RULE = ("Every message length 0..300 for every hash with several partitions into updates (whole, byte-wise, around the "
        "block borders, empty pieces), random lengths up to 20000, patterned and random data, random alignment, several "
        "contexts of different hashes interleaved, re-initialisation after (or without) a digest, one-shot functions, "
        "and messages beyond 2^32 bits and 2^32 bytes in one or several updates. Digests are compared with Python's "
        "hashlib (OpenSSL). Distinct by hash of all commands.")


def ref(k, d):
    return getattr(hashlib, k)(d).digest()


def single(rng, k, n):
    c = Case("%s/n%%%d=%d" % (k, BLOCK[k], n % BLOCK[k]))
    d = gen.data_bytes(rng, n)
    c.c("mis %d" % rng.randrange(16))
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    c.c("ci 0 %s" % k)
    p = 0
    for m in gen.chunks(rng, n):
        c.c("up 0 %s" % hx(d[p:p + m]))
        p += m
    c.c("dg 0", ref(k, d).hex())
    c.c("hash %s %s" % (k, hx(d)), ref(k, d).hex())
    return c


def hist(rng, ctx):
    """Several contexts, any order of calls."""
    c = Case("interleaved")
    c.c("mis %d" % rng.randrange(16))
    st = {}
    for s in range(3):
        k = rng.choice(KINDS)
        c.c("ci %d %s" % (s, k))
        st[s] = [k, b""]
    for _ in range(rng.randrange(4, 30)):
        s = rng.randrange(3)
        k, d = st[s]
        r = rng.random()
        if r < 0.7:
            x = gen.data_bytes(rng, gen.length(rng, 700, BLOCK[k], ctx["consts"]))
            c.c("up %d %s" % (s, hx(x)))
            st[s][1] = d + x
        elif r < 0.76:
            m = rng.randrange(1, 70)
            b = gen.data_bytes(rng, rng.randrange(1, 4))
            c.c("upn %d %d %s" % (s, m, hx(b)))
            st[s][1] = d + b * m
        elif r < 0.92:
            c.c("dg %d" % s, ref(k, d).hex())
            k = rng.choice((k, k, rng.choice(KINDS)))
            c.c("ci %d %s" % (s, k))
            st[s] = [k, b""]
        else:
            c.c("ci %d %s" % (s, k))          # abandon and start again
            st[s][1] = b""
            c.tag("abandoned")
    for s in range(3):
        c.c("dg %d" % s, ref(st[s][0], st[s][1]).hex())
    return c


def cases(rng, w, count, ctx):
    todo = [(k, n) for n in range(0, 301) for k in KINDS]
    for j, (k, n) in enumerate(todo):
        if j % 8 == w:
            for _ in range(2 if ctx["tier"] == "quick" else 12):
                yield single(rng, k, n)
    for i in range(count):
        if i % 4 == 0:
            yield single(rng, rng.choice(KINDS), gen.length(rng, 20000, 128, ctx["consts"]))
        else:
            yield hist(rng, ctx)


def huge(rng, w, count, ctx):
    jobs = ctx["jobs"]
    for j, (k, pre, parts, post) in enumerate(jobs):
        if j % 8 != w:
            continue
        h = getattr(hashlib, k)()
        d0, d1 = rng.randbytes(pre), rng.randbytes(post)
        mb = sum(p[0] for p in parts)
        c = Case("huge/%s/%s" % (k, "2^32 bytes" if mb >= 4096 else "2^32 bits"))
        if len(parts) > 1:
            c.tag("huge/%s/pieces" % k)
        c.c("ci 0 %s" % k).c("up 0 %s" % hx(d0))
        h.update(d0)
        for mb, tail in parts:
            b = rng.randrange(256)
            unit = bytes([b]) * (1 << 20)
            for _ in range(mb):
                h.update(unit)
            h.update(unit[:tail])
            c.c("upbig 0 %d %d %d" % (mb, tail, b))
        h.update(d1)
        c.c("up 0 %s" % hx(d1)).c("dg 0", h.hexdigest())
        yield c


def check(run):
    n = 250 if run.tier == "quick" else 4000
    run.sweep(cases, run.bins("asan", "rel"), n)
    # the length counters are crossed within one update and between updates of several sizes
    jobs = [("sha1", 5, [(4100, 77)], 9), ("sha512", 100, [(4097, 60)], 3), ("sha384", 0, [(4096, 0)], 0), ("md5", 7, [(4100, 3)], 1),
            ("sha256", 1, [(520, 5)], 8), ("md5", 63, [(512, 1)], 0), ("sha1", 0, [(600, 64)], 1), ("md5", 0, [(1, 7)] * 513, 1),
            ("md5", 3, [(200, 5), (200, 9), (300, 1), (400, 0)], 3), ("sha1", 1, [(2040, 1), (2060, 9)], 2),
            ("sha1", 0, [(1, 1)] * 514, 3), ("sha256", 9, [(300, 1), (300, 9)], 2), ("sha512", 3, [(300, 1), (220, 1)], 1)]
    if run.tier != "quick":
        jobs += [("sha256", 3, [(4099, 9)], 60), ("md5", 0, [(4096, 0)], 0), ("sha1", 60, [(8200, 0)], 3), ("sha384", 1, [(520, 7)], 0),
                 ("md5", 1, [(3000, 1), (3000, 5), (3000, 9)], 1), ("sha1", 1, [(3000, 1), (3000, 5), (3000, 9)], 1),
                 ("sha256", 1, [(3000, 1), (3000, 5)], 1), ("sha512", 1, [(2100, 1), (2100, 5)], 1)]
    run.sweep(huge, run.bins("rel"), 0, batch=1, cpu=150 if run.tier == "quick" else 400, ctx={"jobs": jobs}, label="huge")
    return run.finish("exploration", RULE, ["hashlib implements the published functions"],
                      require=["interleaved", "abandoned", "huge/sha1/2^32 bytes", "huge/md5/2^32 bytes", "huge/md5/pieces",
                               "huge/sha1/pieces", "huge/sha256/pieces"] +
                      ["%s/n%%%d=%d" % (k, BLOCK[k], r) for k in KINDS for r in range(BLOCK[k])])
