from vlib.engine import Case, hx
from vlib import gen
from vlib.ref import sym

RULE = ("AES generator: seeds of every length 0..40 (and none), counters about to carry, requests of 0..200 bytes in random "
        "sequences, re-seeding at any point of the residual buffer; output compared with AES-CTR. LFSR113: seeds of "
        "every length 0..60 (folded), unsuitable component values around the limits 1, 7, 15, 127, histories of several "
        "seedings; output compared with the reference recurrence. The two generators and other library calls that draw "
        "random bytes are interleaved. Distinct by hash of all commands."
        " Long layer: requests beyond 2^16 bytes against small ones and the models.")

M = 0xffffffff
DEF = 987654321


class AES:
    def __init__(self, seed):
        self.key = seed[:16].ljust(16, b"\0")
        self.ctr = int.from_bytes(seed[16:32].ljust(16, b"\0"), "big")
        self.buf = b""

    def get(self, n):
        while len(self.buf) < n:
            self.buf += sym.enc_block("aes", self.key, self.ctr.to_bytes(16, "big"))
            self.ctr = (self.ctr + 1) % (1 << 128)
        r, self.buf = self.buf[:n], self.buf[n:]
        return r


class LFSR:
    def __init__(self, seed):
        z = bytearray(16)
        for i, b in enumerate(seed):
            z[i % 16] ^= b
        self.z = [int.from_bytes(z[4 * i:4 * i + 4], "little") for i in range(4)]
        for i, lim in enumerate((1, 7, 15, 127)):
            if self.z[i] <= lim:
                self.z[i] = DEF

    def word(self):
        z = self.z
        b = (((z[0] << 6) & M) ^ z[0]) >> 13
        z[0] = (((z[0] & 0xfffffffe) << 18) & M) ^ b
        b = (((z[1] << 2) & M) ^ z[1]) >> 27
        z[1] = (((z[1] & 0xfffffff8) << 2) & M) ^ b
        b = (((z[2] << 13) & M) ^ z[2]) >> 21
        z[2] = (((z[2] & 0xfffffff0) << 7) & M) ^ b
        b = (((z[3] << 3) & M) ^ z[3]) >> 12
        z[3] = (((z[3] & 0xffffff80) << 13) & M) ^ b
        return z[0] ^ z[1] ^ z[2] ^ z[3]

    def get(self, n):
        out = b""
        while len(out) < n:
            out += self.word().to_bytes(4, "big")
        return out[:n]


def aseed(rng):
    k = rng.random()
    if k < 0.3:
        t = rng.randrange(1, 17)
        ctr = (int.from_bytes(rng.randbytes(16 - t) + b"\xff" * t, "big") - rng.randrange(0, 8)) % (1 << 128)
        return rng.randbytes(16) + ctr.to_bytes(16, "big")
    return gen.data_bytes(rng, rng.choice((0, 1, 15, 16, 17, 31, 32, 33, 40, rng.randrange(0, 64))))


def lseed(rng, c):
    if rng.random() < 0.5:
        s = b""
        for i, lim in enumerate((1, 7, 15, 127)):
            s += rng.choice((0, 1, lim - 1, lim, lim + 1, 2 * lim, rng.getrandbits(32), M)).to_bytes(4, "little")
        c.tag("lfsr/limits")
        return s[:rng.choice((16, 16, 16, 15, 12))]
    n = rng.choice((0, 1, 3, 4, 15, 16, 17, 32, 33, rng.randrange(0, 61)))
    c.tag("lfsr/seed %s" % ("short" if n < 16 else "long" if n > 16 else "16"))
    return gen.data_bytes(rng, n)


def hist(rng, ctx):
    c = Case()
    c.c("mis %d" % rng.randrange(16)).c("fill %d" % rng.choice((0, 0xA5, 0xFF)))
    a = l = None
    for _ in range(rng.randrange(3, 25)):
        if rng.random() < 0.5:
            if a is None or rng.random() < 0.15:
                s = aseed(rng)
                if rng.random() < 0.05:
                    c.c("seed @", "0")
                    s = b""
                else:
                    c.c("seed %s" % hx(s), "0")
                c.tag("aes/seed %d" % min(len(s), 33))
                a = AES(s)
            n = rng.choice((0, 1, 3, 4, 7, 15, 16, 17, 31, 32, 33, rng.randrange(200)))
            c.c("prng %d" % n, "0,%s" % hx(a.get(n)))
            c.tag("aes/residual %d" % len(a.buf))
        else:
            if l is None or rng.random() < 0.2:
                s = lseed(rng, c)
                if rng.random() < 0.05:
                    c.c("lseed @", "0")
                    s = b""
                else:
                    c.c("lseed %s" % hx(s), "0")
                l = LFSR(s)
            n = rng.choice((0, 4, 8, 4 * rng.randrange(60), rng.randrange(200)))
            c.c("lprng %d" % n, "0,%s" % hx(l.get(n)))
            c.tag("lfsr/n%%4=%d" % (n % 4))
    return c


def first(w):
    """The generators of a process that never seeded them."""
    c = Case("unseeded")
    a, l = AES(b""), LFSR(b"")
    for n in (1, 20, 3, 64):
        c.c("prng %d" % n, "0,%s" % hx(a.get(n)))
        c.c("lprng %d" % (4 * n), "0,%s" % hx(l.get(4 * n)))
    return c


def cases(rng, w, count, ctx):
    yield first(w)
    for i in range(count):
        yield hist(rng, ctx)


def longs(rng, w, count, ctx):
    """Requests beyond 2^16 and 2^20 bytes: the same bytes as short requests give after the same seeding."""
    for n in [65535, 65536, 65552, 66000, 131072 + 7, 262144, 262148, 1048576, 1048592, 1048583, 70001, 80000, 300003, 524289, 1100000, 65540][w::8]:
        for cmd in ("", "l"):
            c = Case("long/%s" % (cmd or "aes"))
            s = hx(rng.randbytes(rng.choice((16, 32))))
            c.c("%sseed %s" % (cmd, s), "0")
            k = len(c.cmds)
            c.c("%sprng %d" % (cmd, n)).c("%sprng 8" % cmd)
            c.c("%sseed %s" % (cmd, s), "0")
            left, i = n, len(c.cmds)
            while left:
                m = min(left, 4 * rng.randrange(50, 2000))
                c.c("%sprng %d" % (cmd, m))
                left -= m
            j = len(c.cmds)
            c.c("%sprng 8" % cmd)

            def final(o, k=k, i=i, j=j):
                if any(x[:2] != "0," for x in [o[k]] + o[i:j]):
                    return "request refused"
                if o[k][2:] != "".join(x[2:] for x in o[i:j]) or o[k + 1] != o[j]:
                    return "one long request and short ones give different bytes"
            c.final = final
            yield c
    a, l = rng.randbytes(32), rng.randbytes(16)
    n = 66000 + w
    c = Case("long/reference")
    c.c("seed %s" % hx(a), "0").c("prng %d" % n, "0,%s" % hx(AES(a).get(n)))
    c.c("lseed %s" % hx(l), "0").c("lprng %d" % n, "0,%s" % hx(LFSR(l).get(n)))
    yield c


def check(run):
    run.sweep(cases, run.bins("asan", "rel"), 4000 if run.tier == "quick" else 20000, batch=100000)
    run.sweep(longs, run.bins("asan", "rel"), 0, cpu=60, label="long")
    return run.finish("exploration", RULE, ["little-endian host (seed folding of the LFSR)"],
                      require=["long/aes", "long/l", "long/reference", "unseeded", "lfsr/limits", "lfsr/seed short", "lfsr/seed long"] +
                      ["aes/residual %d" % i for i in range(16)] + ["lfsr/n%%4=%d" % i for i in range(4)])
