from vlib.engine import Case, hx
from vlib import gen, longrun
from vlib.ref import sym

RULE = ("RC4 with keys of 1..256 bytes and Trivium with keys and IVs of 0..10 bytes: messages of 0..3000 bytes split "
        "over consecutive calls (Trivium: at multiples of four bytes), in place and out of place, random alignment, "
        "two contexts interleaved, re-keying and new IVs in between, double application. Outputs are compared with a "
        "bit-serial Trivium and a plain RC4. Distinct by hash of all commands."
        " A stream of megabytes in uneven calls against the models; single calls beyond 2^16 and 2^24 bytes against "
        "small calls on a second context.")


def rc4key(rng):
    n = rng.choice((1, 2, 5, 8, 13, 16, 32, 64, 127, 128, 255, 256, rng.randrange(1, 257)))
    return gen.data_bytes(rng, n)


def tparts(rng):
    return (gen.data_bytes(rng, rng.choice((10, 10, 10, 9, 8, 4, 1, 0))),
            gen.data_bytes(rng, rng.choice((10, 10, 10, 9, 8, 5, 1, 0))))


def hist(rng, ctx, kinds):
    c = Case()
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    c.c("mis %d" % rng.randrange(16))
    st = {}
    for s in (0, 1):
        t = rng.choice(kinds)
        c.c("ci %d %s" % (s, t))
        st[s] = [t, None, None]
    for _ in range(rng.randrange(2, 7)):
        s = rng.randrange(2)
        t, ref, key = st[s]
        if t == "arc4":
            if ref is None or rng.random() < 0.25:
                k = rc4key(rng)
                c.c("ck %d %s" % (s, hx(k)))
                ref = sym.RC4(k)
                c.tag("arc4/key %d" % (len(k) if len(k) in (1, 255, 256) else 0))
            n = gen.length(rng, 1500, 64, ctx["consts"])
            unit = 1
        else:
            r = rng.random()
            if ref is None or r < 0.2:
                key, v = tparts(rng)
                c.c("ck %d %s" % (s, hx(key)))
                c.c("civ %d %s" % (s, hx(v)))
                ref = sym.Trivium(key, v)
                c.tag("trivium/key %d iv %d" % (len(key), len(v)))
            elif r < 0.4:
                v = tparts(rng)[1]
                c.c("civ %d %s" % (s, hx(v)))
                ref = sym.Trivium(key, v)
                c.tag("trivium/new iv")
            n = gen.length(rng, 160, 16, ctx["consts"])
            unit = 4
        for p in gen.chunks(rng, n, unit) or [0]:
            d = gen.data_bytes(rng, p)
            c.c("e%s %d %s" % (rng.choice("io"), s, hx(d)), hx(ref.crypt(d)))
        c.tag("%s/n%%4=%d" % (t, n % 4))
        if t == "triv" and n % 4:
            ref = None                      # the stream position inside a word is not kept
        st[s] = [t, ref, key]
    return c


def twice(rng, ctx, t):
    c = Case("%s/twice" % t)
    n = gen.length(rng, 500, 16, ctx["consts"])
    d = gen.data_bytes(rng, n)
    k = rc4key(rng) if t == "arc4" else gen.data_bytes(rng, 10)
    v = gen.data_bytes(rng, 10)
    e = (sym.RC4(k) if t == "arc4" else sym.Trivium(k, v)).crypt(d)
    c.c("ci 0 %s" % t)
    for x, y in ((d, e), (e, d)):
        c.c("ck 0 %s" % hx(k))
        if t != "arc4":
            c.c("civ 0 %s" % hx(v))
        c.c("e%s 0 %s" % (rng.choice("io"), hx(x)), hx(y))
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        if i % 8 == 0:
            yield twice(rng, ctx, rng.choice(("arc4", "triv")))
        else:
            yield hist(rng, ctx, rng.choice((("arc4",), ("triv", "arc4"), ("triv",))))


def long_stream(run, bins):
    """A stream long enough for index and counter slips, in uneven calls."""
    import random
    rng = random.Random("%d/long" % run.seed)
    cs = []
    for t in ("arc4", "triv"):
        k, v = rng.randbytes(10), rng.randbytes(10)
        ref = sym.RC4(k) if t == "arc4" else sym.Trivium(k, v)
        c = Case(t + "/long stream")
        c.c("ci 0 %s" % t).c("ck 0 %s" % hx(k))
        if t == "triv":
            c.c("civ 0 %s" % hx(v))
        left = 200000 if t == "arc4" else 20000
        while left > 0:
            n = min(left, 4 * rng.choice((1, 3, 64, 250, 1000)))
            d = rng.randbytes(n)
            c.c("eo 0 %s" % hx(d), hx(ref.crypt(d)))
            left -= n
        cs.append(c)
    run.one(cs, bins)


def longs(rng, w, count, ctx):
    jobs = [(t, op, n) for t in ("arc4", "triv") for op in ("eo", "ei") for n in longrun.sizes(rng, 4, (1 << 20, (1 << 24) + 64 * 5))]
    jobs = jobs[w::8]
    if ctx["huge"] and w < 2:
        jobs += [(t, "eo", (4 << 30) + 16 * 1000) for t in ("arc4", "triv")][w::2]
    for t, op, n in jobs:
        st = ["ci %%d %s" % t, "ck %%d %s" % hx(rng.randbytes(10))]
        if t == "triv":
            st.append("civ %%d %s" % hx(rng.randbytes(10)))
        yield longrun.pair(rng, st, op, n, ["eo %%d %s" % hx(rng.randbytes(32))], "%s %s" % (t, op))


def check(run):
    n = 1000 if run.tier == "quick" else 5000
    run.sweep(cases, run.bins("asan", "rel"), n)
    long_stream(run, run.bins("rel"))
    run.sweep(longs, run.bins("rel"), 0, cpu=300, ctx={"huge": run.tier != "quick"}, label="long")
    return run.finish("exploration", RULE, ["Trivium byte order is that of the eSTREAM reference code"],
                      require=["arc4/key 1", "arc4/key 256", "trivium/new iv", "long/arc4 eo", "long/triv eo", "arc4/long stream", "triv/long stream"])
