import base64
from vlib.engine import Case, hx
from vlib import gen

RULE = ("Encoding of every length 0..300 with random and patterned data (each byte value in each of the three phases) "
        "into a buffer of exactly the resulting size, decoding of the text into a buffer of exactly the original size, "
        "compared with Python's base64. Rejection: every possible byte at every position of a quantum, lengths that are "
        "no multiple of four, padding at illegal places, random text. Distinct by hash of all commands."
        " Texts beyond 2^16 and 2^20 bytes, with single bad characters far inside.")

ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def legal(t):
    """Bytes, or None when the text is malformed."""
    if len(t) % 4:
        return None
    core = t.rstrip(b"=")
    if len(t) - len(core) > 2 or any(x not in ALPHA for x in core):
        return None
    return base64.b64decode(t)


def enc(rng, d):
    t = base64.b64encode(d)
    c = Case("n%%3=%d" % (len(d) % 3))
    c.c("mis %d" % rng.randrange(16)).c("fill %d" % rng.choice((0, 0xA5, 0xFF, 0x41)))
    c.c("b64e %s %d" % (hx(d), len(t)), "%d,%s" % (len(t), hx(t)))
    c.c("b64d %s %d" % (hx(t), len(d)), "%d,%s" % (len(d), hx(d)))
    return c


def dec(c, t):
    d = legal(t)
    if d is None:
        c.c("b64d %s %d" % (hx(t), len(t) // 4 * 3 + 3), "-1,")
    else:
        c.c("b64d %s %d" % (hx(t), len(d)), "%d,%s" % (len(d), hx(d)))


def phase(rng, b):
    """Byte b in every phase, next to every kind of neighbour."""
    c = enc(rng, bytes([b, b, b]))
    c.tag("byte %02x in every phase" % b)
    for d in (bytes([b]), bytes([b, b]), bytes([b, 0, 0]), bytes([0, b, 0]), bytes([0, 0, b]), bytes([255, b, 255]),
              bytes([0, b]), bytes([255, b]), bytes([b, 255])):
        t = base64.b64encode(d)
        c.c("b64e %s %d" % (hx(d), len(t)), "%d,%s" % (len(t), hx(t)))
        dec(c, t)
    return c


def reject(rng, b):
    """Character b at every position of the first and of the last quantum."""
    c = Case("char %02x everywhere" % b)
    base = bytes(rng.choice(ALPHA) for _ in range(4 * rng.randrange(2, 6)))
    for p in (0, 1, 2, 3, len(base) - 4, len(base) - 3, len(base) - 2, len(base) - 1):
        t = bytearray(base)
        t[p] = b
        dec(c, bytes(t))
    return c


def mangled(rng, ctx):
    c = Case("mangled")
    for _ in range(6):
        t = bytearray(base64.b64encode(gen.data_bytes(rng, gen.length(rng, 100, 3, ctx["consts"]))))
        r = rng.randrange(6)
        if r == 0 and t:
            del t[rng.randrange(len(t))]
        elif r == 1:
            t.insert(rng.randrange(len(t) + 1), rng.choice(ALPHA + b"=\n \0"))
        elif r == 2 and t:
            t[rng.randrange(len(t))] = rng.randrange(256)
        elif r == 3 and t:
            for _ in range(rng.randrange(1, 4)):
                t[rng.randrange(len(t))] = 0x3d
        elif r == 4:
            t += base64.b64encode(gen.data_bytes(rng, rng.randrange(0, 6)))
        else:
            t = bytearray(rng.choice(ALPHA + b"====") for _ in range(4 * rng.randrange(0, 4)))
        dec(c, bytes(t))
        c.tag("mangle %d %s" % (r, "accept" if legal(bytes(t)) is not None else "reject"))
    return c


def cases(rng, w, count, ctx):
    for n in range(w, 301, 8):
        yield enc(rng, gen.data_bytes(rng, n))
    for b in range(w, 256, 8):
        yield phase(rng, b)
        yield reject(rng, b)
    for i in range(count):
        if i % 2:
            yield enc(rng, gen.data_bytes(rng, gen.length(rng, 3000, 3, ctx["consts"])))
        else:
            yield mangled(rng, ctx)


def longs(rng, w, count, ctx):
    """Texts beyond 2^16 and 2^20 bytes, and one bad character far into a long text."""
    for n in [49151, 49152, 49153, 65535, 65536, 65537, 98303, 98304, 131073, 196607, 196609, 786431, 786433, 1048577, 1600001, 200000][w::8]:
        d = rng.randbytes(n)
        yield enc(rng, d).tag("long")
        t = bytearray(base64.b64encode(d))
        c = Case("long mangled")
        for p in (rng.randrange(min(len(t) - 8, 65536), len(t) - 4), 65536 if len(t) > 65544 else 49000):
            u = bytearray(t)
            u[p] = rng.choice(b"=\n\x80-_\0")
            dec(c, bytes(u))
        yield c


def check(run):
    run.sweep(cases, run.bins("asan", "rel"), 4000 if run.tier == "quick" else 20000)
    run.sweep(longs, run.bins("asan", "rel"), 0, cpu=60, label="long")
    return run.finish("exploration", RULE, ["non-zero unused bits before padding are tolerated"],
                      require=["long", "long mangled"] + ["byte %02x in every phase" % b for b in range(256)] +
                      ["char %02x everywhere" % b for b in range(256)] + ["mangle 3 reject", "mangle 2 reject"])
