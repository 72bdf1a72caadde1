from vlib.engine import Case, hx
from vlib import gen, longrun
from vlib.ref import sym

RULE = ("Histories on two contexts at a time (AES-128/192/256, DES, Triple-DES): re-keying, encryption and decryption "
        "of 0..40 blocks, in place and out of place, at all alignments, in random order; keys and blocks random, "
        "patterned, and sweeping every byte value in every key and block position. Every output is compared with an "
        "independent implementation of FIPS 197 / FIPS 46-3. Distinct by hash of all commands."
        " Long layer: single calls of more than 2^16 (AES: also 2^20 and, thoroughly, 2^32) bytes, compared with the "
        "same data in small calls on a second context and hashed.")


def key(rng, ciph, kl=None):
    n = kl or rng.choice((16, 24, 32) if ciph == "aes" else (8, 24))
    k = gen.data_bytes(rng, n)
    if ciph == "des" and n == 24 and rng.random() < 0.2:
        k = k[:8] + rng.choice((k[:8], k[8:16])) + k[:8]
    return k


def hist(rng, ctx):
    c = Case()
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    c.c("mis %d" % rng.randrange(16))
    keys = {}
    last = {}
    for s in (0, 1):
        ciph = rng.choice(("aes", "aes", "des"))
        c.c("ci %d %s" % (s, ciph))
        keys[s] = (ciph, None)
    for _ in range(rng.randrange(3, 14)):
        s = rng.randrange(2)
        ciph, k = keys[s]
        if k is None or rng.random() < 0.2:
            k = key(rng, ciph)
            keys[s] = ciph, k
            c.c("ck %d %s" % (s, hx(k)))
            c.tag("key/%s%d" % (ciph, len(k)), "rekey after %s" % last.get(s))
            last[s] = "key"
        bs = sym.BS[ciph]
        nb = rng.choice((0, 1, 1, 1, 2, 3, 4, 5, 8, 16, 33)) if ciph == "aes" else rng.choice((0, 1, 1, 2, 3, 8))
        d = gen.data_bytes(rng, bs * nb)
        dec, inp = rng.random() < 0.5, rng.random() < 0.5
        c.c("%s%s %d %s" % ("d" if dec else "e", "i" if inp else "o", s, hx(d)), hx(sym.ecb(ciph, k, d, dec)))
        c.tag("%s%d/%s after %s" % (ciph, len(k), "dec" if dec else "enc", last[s]),
              "%s blocks=%d inplace=%d" % (ciph, min(nb, 5), inp))
        last[s] = "dec" if dec else "enc"
    return c


def sweep(rng, ciph, kl, pos, dec):
    """All 256 values of one byte of the block, chained over all positions; and of one key byte."""
    bs = sym.BS[ciph]
    k = bytearray(rng.randbytes(kl))
    c = Case("sweep/%s%d" % (ciph, kl))
    c.c("ci 0 %s" % ciph)
    c.c("ck 0 %s" % hx(bytes(k)))
    base = rng.randbytes(bs)
    d = b"".join(base[:pos % bs] + bytes([v]) + base[pos % bs + 1:] for v in range(256))
    c.c("%s %d %s" % ("do" if dec else "eo", 0, hx(d)), hx(sym.ecb(ciph, bytes(k), d, dec)))
    for v in range(0, 256, 3):
        k[pos % kl] = (v + pos) & 255
        c.c("ck 0 %s" % hx(bytes(k)))
        b = rng.randbytes(bs)
        c.c("%s %d %s" % ("do" if dec else "eo", 0, hx(b)), hx(sym.ecb(ciph, bytes(k), b, dec)))
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        if i % 12 == 3:
            ciph, kl = rng.choice((("aes", 16), ("aes", 24), ("aes", 32), ("des", 8), ("des", 24)))
            yield sweep(rng, ciph, kl, rng.randrange(32), rng.random() < 0.5)
        else:
            yield hist(rng, ctx)


def longs(rng, w, count, ctx):
    """Single calls beyond 2^16 bytes and blocks against short calls; the second sweep of every worker."""
    jobs = [("aes", kl, op, n) for kl in (16, 24, 32) for op in ("eo", "ei", "do", "di") for n in longrun.sizes(rng, 16)]
    jobs += [("des", kl, op, 65536 + 8 * rng.randrange(1, 40)) for kl in (8, 24) for op in ("eo", "di")]
    jobs += [("des", 8, op, 8 * 65536 + 8 * rng.randrange(1, 9)) for op in ("ei", "do")]
    jobs += [("aes", kl, op, (1 << 24) + 16 * 5) for kl, op in ((16, "eo"), (24, "di"), (32, "ei"), (16, "do"))]
    jobs = jobs[w::8]
    if ctx["huge"] and w < 2:
        jobs += [("aes", 16, op, (4 << 30) + 16 * 1000) for op in ("eo", "do")][w::2]
    for ciph, kl, op, n in jobs:
        k = rng.randbytes(kl)
        x = hx(rng.randbytes(32))
        yield longrun.pair(rng, ["ci %%d %s" % ciph, "ck %%d %s" % hx(k)], op, n, ["eo %%d %s" % x, "do %%d %s" % x],
                           "%s %s%s" % (ciph, op[0], " >4G" if n >> 32 else ""))


def check(run):
    n = 2000 if run.tier == "quick" else 15000
    run.sweep(cases, run.bins("asan", "rel"), n)
    run.sweep(longs, run.bins("rel"), 0, cpu=600, ctx={"huge": run.tier != "quick"}, label="long")
    req = ["long/aes e", "long/aes d", "long/des e", "long/des d"]
    req += ["key/aes16", "key/aes24", "key/aes32", "key/des8", "key/des24"]
    req += ["aes%d/%s after %s" % (k, a, b) for k in (16, 24, 32) for a in ("enc", "dec") for b in ("enc", "dec", "key")]
    return run.finish("exploration", RULE, ["the Python reference (checked against OpenSSL at development time) is right"],
                      require=req)
