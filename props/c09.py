from vlib.engine import Case, hx
from vlib import gen, longrun
from vlib.ref import sym

RULE = ("Histories on a GCM context: IV lengths 1..200 (12 and 16n among them), additional data and messages of "
        "0..600 bytes in pieces of multiples of 16 plus a tail, in place or out of place, tag lengths 1..16, several "
        "messages per context with new IV or key, encrypt and decrypt; IVs chosen so that the 32-bit counter wraps; "
        "one run of more than 512 MB of additional data (bit length beyond 32 bits). Ciphertext and tag are compared "
        "with an independent implementation of SP 800-38D. Distinct by hash of all commands.")


def wrap_iv(rng, key):
    """An IV whose initial counter is about to wrap: J0 = GHASH(IV) solved for one block of IV."""
    H = int.from_bytes(sym.aes_enc_block(key, bytes(16)), "big")
    # one 16-byte block x: J0 = ((x*H) ^ len) * H  =>  x = ((J0 * H^-1) ^ len) * H^-1
    hi = gf_inv(H)
    j0 = rng.getrandbits(96) << 32 | (0xFFFFFFFF - rng.randrange(0, 6))
    x = gf_mul(gf_mul(j0, hi) ^ 128, hi)
    return x.to_bytes(16, "big")


def gf_mul(x, y):
    z, v = 0, y
    for i in range(127, -1, -1):
        if x >> i & 1:
            z ^= v
        v = (v >> 1) ^ (0xE1 << 120) if v & 1 else v >> 1
    return z


def gf_inv(x):
    r, p = 1 << 127, x          # x^(2^128-2)
    e = (1 << 128) - 2
    while e:
        if e & 1:
            r = gf_mul(r, p)
        p = gf_mul(p, p)
        e >>= 1
    return r


def hist(rng, ctx):
    c = Case()
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    c.c("mis %d" % rng.randrange(16))
    c.c("ci 0 gcm aes")
    k = None
    for _ in range(rng.choice((1, 1, 2, 3))):
        if k is None or rng.random() < 0.3:
            k = gen.data_bytes(rng, rng.choice((16, 24, 32)))
            c.c("ck 0 %s" % hx(k))
        r = rng.random()
        if r < 0.3:
            v = gen.data_bytes(rng, 12)
            if rng.random() < 0.4:
                v = rng.randbytes(8) + b"\xff\xff\xff\xff"
            kind = "12"
        elif r < 0.45:
            v = wrap_iv(rng, k)
            kind = "counter wrap"
        else:
            n = rng.choice((1, 2, 4, 8, 11, 13, 15, 16, 17, 31, 32, 48, 60, rng.randrange(1, 200),
                            rng.randrange(200, 700) if rng.random() < 0.5 else 128))
            v = gen.data_bytes(rng, n)
            kind = "other"
        c.c("civ 0 %s" % hx(v))
        aad = gen.data_bytes(rng, gen.length(rng, 300, 16, ctx["consts"]))
        msg = gen.data_bytes(rng, gen.length(rng, 600, 16, ctx["consts"]))
        if kind == "counter wrap":
            msg = gen.data_bytes(rng, rng.randrange(60, 200))
        dec = rng.random() < 0.4
        tl = rng.choice((16, 16, 12, 4, rng.randrange(1, 17)))
        out, tag = sym.gcm(k, v, aad, msg, dec, tl)
        i = 0
        for p in gen.chunks(rng, len(aad), 16):
            c.c("up 0 %s" % hx(aad[i:i + p]))
            i += p
        i = 0
        for p in gen.chunks(rng, len(msg), 16):
            op = ("d" if dec else "e") + rng.choice("io")
            c.c("%s 0 %s" % (op, hx(msg[i:i + p])), hx(out[i:i + p]))
            c.tag("op/" + op)
            i += p
        c.c("dg 0 %d" % tl, hx(tag))
        c.tag("iv/" + kind, "key/%d" % len(k), "tag/%d" % tl, "aad%%16=%d" % (len(aad) % 16), "msg%%16=%d" % (len(msg) % 16),
              "empty aad=%d msg=%d" % (not aad, not msg))
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        yield hist(rng, ctx)


def longs(rng, w, count, ctx):
    """IVs, additional data and messages beyond 2^16 bytes (or blocks)."""
    for n in [255, 256, 257, 511, 1023, 1025, 2047, 4095, 4096, 4100, 8192, 16384 + 5, 32768 + 16, 65535, 65536, 70000][w::8]:
        k, v, aad, msg = rng.randbytes(rng.choice((16, 24, 32))), rng.randbytes(n), rng.randbytes(20), rng.randbytes(40)
        out, tag = sym.gcm(k, v, aad, msg, False, 16)
        c = Case("long/iv %s" % (n if n < 1024 else "big"))
        c.c("ci 0 gcm aes").c("ck 0 %s" % hx(k)).c("civ 0 %s" % hx(v)).c("up 0 %s" % hx(aad)).c("eo 0 %s" % hx(msg), hx(out))
        c.c("dg 0 16", hx(tag))
        yield c
    jobs = [(op, n) for op in ("up", "eo", "ei", "do", "di") for n in longrun.sizes(rng, 16)]
    jobs += [("up", (1 << 24) + 16 * 5), ("eo", (1 << 24) + 16 * 5), ("di", (1 << 24) + 16 * 5)]
    if ctx["huge"]:
        jobs += [("up", (4 << 30) + 16 * 1000)]
    for op, n in jobs[w::8]:
        k, v = rng.randbytes(rng.choice((16, 24, 32))), rng.randbytes(rng.choice((12, 12, 8, 16)))
        after = ["dg %d 16"]
        if op == "up":
            after.insert(0, "eo %%d %s" % hx(rng.randbytes(33)))
        yield longrun.pair(rng, ["ci %d gcm aes", "ck %%d %s" % hx(k), "civ %%d %s" % hx(v)], op, n, after, "gcm " + op)


def large(run, bins):
    """Additional data of more than 2^32 bits: zero bytes hash to zero, so only the length block counts."""
    import random
    rng = random.Random("%d/large" % run.seed)
    k, v = rng.randbytes(16), rng.randbytes(12)
    n = 513 << 20
    s = sym.ghash(k, (8 * n).to_bytes(8, "big") + bytes(8))
    tag = sym.xor(s, sym.aes_enc_block(k, v + b"\0\0\0\1"))
    c = Case("aad > 512 MB")
    c.c("ci 0 gcm aes").c("ck 0 %s" % hx(k)).c("civ 0 %s" % hx(v)).c("upn 0 513 =1048576:0").c("dg 0 16", hx(tag))
    run.one([c], bins, cpu=200)
    # A message of more than 2^32 bits: the ciphertext of zeros (decrypted, and its plaintext encrypted again) hashes to zero
    s = sym.ghash(k, bytes(8) + (8 * n).to_bytes(8, "big"))
    tag = hx(sym.xor(s, sym.aes_enc_block(k, v + b"\0\0\0\1")))
    c = Case("text > 512 MB")
    for i in (0, 1):
        c.c("ci %d gcm aes" % i).c("ck %d %s" % (i, hx(k))).c("civ %d %s" % (i, hx(v)))
    c.c("xn 0 1 513 1048576", ".").c("dg 0 16", tag).c("dg 1 16", tag)
    run.one([c], bins, cpu=400)


def check(run):
    n = 1000 if run.tier == "quick" else 12000
    run.sweep(cases, run.bins("asan", "rel"), n)
    run.sweep(longs, run.bins("rel"), 0, cpu=400, ctx={"huge": run.tier != "quick"}, label="long")
    large(run, run.bins("rel"))
    return run.finish("exploration", RULE, ["pieces are multiples of 16 bytes except the last, as the property states"],
                      require=["iv/12", "iv/other", "iv/counter wrap", "aad > 512 MB", "text > 512 MB", "long/iv big", "long/gcm up", "long/gcm di", "op/ei", "op/eo", "op/di", "op/do"])
