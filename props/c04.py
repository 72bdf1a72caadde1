from vlib.engine import Case, mh, hx
from vlib.mpimodel import Prog, sgn, exp_fail
from vlib import gen

RULE = ("Values of hostile digit patterns loaded from bytes (leading zeros, empty), text in every radix (signs, leading "
        "zeros, mixed case) and machine integers (around all power-of-two borders) into dirty objects, and stored into "
        "exact-size buffers with red zones; texts with one foreign character at any position (digit value = radix, "
        "punctuation next to the digit ranges, bytes >= 0x80) and too small destinations must be refused. "
        "Distinct by hash of all commands.")
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def text(v, radix):
    if v == 0:
        return "0"
    s, n = "", abs(v)
    while n:
        n, d = divmod(n, radix)
        s = DIG[d] + s
    return ("-" if v < 0 else "") + s


def g_bin(rng, ctx):
    p = Prog(rng, 1, 300, ctx["consts"])
    c = p.case
    n = gen.length(rng, 300, 8, ctx["consts"])
    data = gen.data_bytes(rng, n)
    if rng.random() < 0.3:
        data = bytes(rng.randrange(0, 20)) + data
    v = int.from_bytes(data, "big")
    if rng.random() < 0.5:
        p.fresh(0)
        c.tag("load_bin/len%%8=%d/%s" % (len(data) % 8, "dirty" if p.v[0] else "zero"))
        c.c("lbin 0 %s" % hx(data), "0")
    else:
        c.tag("init_bin/len%%8=%d" % (len(data) % 8))
        c.c("minit 0 bin %s" % hx(data), "0")
    p.v[0] = v
    p.get(0)
    store(rng, p)
    return c


def store(rng, p):
    c, v = p.case, p.v[0]
    n = (abs(v).bit_length() + 7) // 8
    raw = abs(v).to_bytes(n, "big")
    k = rng.random()
    if k < 0.3:
        c.tag("store_bin/exact")
        c.c("sbin 0 %d %d" % (n, rng.randrange(2)), "0," + hx(raw))
    elif k < 0.6:
        x = rng.choice((1, 2, 7, 8, 9, 33, 33, rng.choice((63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 65600))))
        c.tag("store_bin/padded", "store_bin/padding >= 256" if x >= 256 else "store_bin/padding < 256")
        c.c("sbin 0 %d 1" % (n + x), "0," + hx(bytes(x) + raw))
    elif k < 0.8:
        x = rng.choice((1, 2, 7, 8, 9, 33, 33, rng.choice((63, 64, 65, 255, 256, 257, 4096))))
        c.tag("store_bin/unpadded")
        c.c("sbin 0 %d 0" % (n + x), "0," + hx(raw + b"\x5c" * x))
    elif n > 0:
        c.tag("store_bin/too small")
        c.c("sbin 0 %d %d" % (n - rng.choice((1, 1, n)), rng.randrange(2)),
            lambda o: None if o.split(",")[0] not in ("0",) else "does not fit but no error")
    p.get(0)


def g_str(rng, ctx):
    p = Prog(rng, 1, 500, ctx["consts"])
    c = p.case
    radix = rng.choice((2, 8, 10, 10, 16, 16, 16, 36, rng.randrange(2, 37)))
    v = gen.integer(rng, rng.choice((8, 64, 130, 500, 1200)), ctx["consts"])
    body = text(abs(v), radix)
    if rng.random() < 0.03:
        radix = rng.choice((37, 38, 40, 62, 64, 255, 256, 2**31 - 1))
        c.tag("load_str/bad radix")
        p.fresh(0)
        c.c("lstr 0 %d %s" % (radix, hx(body.encode())), exp_fail)
        c.c("lstr 0 16 %s" % b"1f".hex(), "0").c("mg 0", "1f")
        return c
    if rng.random() < 0.3:
        body = "0" * rng.randrange(1, 20) + body
    if rng.random() < 0.4:
        body = "".join(ch.upper() if rng.random() < 0.5 else ch for ch in body)
    s = ("-" if v < 0 else rng.choice(("", "", "+"))) + body
    if rng.random() < 0.05 and v == 0:
        s = "-" + body
    bad = rng.random() < 0.3
    raw = s.encode()
    if bad:
        k = rng.randrange(len(raw) - len(body), len(raw) + 1)
        ch = rng.choice([b"/", b":", b"@", b"[", b"`", b"{", b" ", b".", b"-", b"+", b"_", b"\n", b"\x7f", b"\x80",
                         b"\xb0", b"\xff", b"x", b"O", b"G", b"g", bytes([rng.randrange(1, 256)])] +
                        ([DIG[radix].encode(), DIG[radix].upper().encode(), DIG[35].encode()] * 4 if radix < 36 else []))
        if k == 0 and ch in (b"-", b"+") or (ch.lower().decode("latin1") in DIG[:radix]):
            bad = False
        else:
            raw = raw[:k] + ch + raw[k + rng.randrange(0, 2):]
    if rng.random() < 0.5:
        p.fresh(0)
        cmd = "lstr 0 %d %s" % (radix, hx(raw))
    else:
        cmd = "minit 0 str %d %s" % (radix, hx(raw))
    kind = "load_str/" if cmd[0] == "l" else "init_str/"
    if bad:
        c.tag("%sradix%d/rejected" % (kind, radix))
        c.c(cmd, exp_fail)
        if cmd[0] == "l":               # still a usable object
            c.c("lstr 0 16 %s" % b"1f".hex(), "0").c("mg 0", "1f")
        return c
    c.tag("%sradix%d" % (kind, radix), "%ssign%d" % (kind, sgn(v)))
    c.c(cmd, "0")
    p.v[0] = v
    p.get(0)
    return c


def g_sstr(rng, ctx):
    p = Prog(rng, 1, 500, ctx["consts"])
    c = p.case
    v = gen.integer(rng, rng.choice((8, 64, 130, 500, 1200)), ctx["consts"])
    p.set(0, v)
    if rng.random() < 0.05:
        radix = rng.choice((0, 1, 17, 36, 40))
        c.tag("store_str/bad radix")
        c.c("sstr 0 %d 4000" % radix, lambda o: None if o.split(",")[0] != "0" else "radix accepted")
        return c
    radix = rng.choice((2, 8, 10, 16, 16, rng.randrange(2, 17)))
    t = text(v, radix)
    if rng.random() < 0.3:
        c.tag("print/radix%d" % radix)
        c.c("print 0 %d" % radix, hx((t + "\n").encode()))
    else:
        c.tag("store_str/radix%d/sign%d" % (radix, sgn(v)))
        c.c("sstr 0 %d %d" % (radix, len(t) + 1), "0," + hx(t.encode()))
    p.get(0)
    return c


def g_int(rng, ctx):
    p = Prog(rng, 1, 300, ctx["consts"])
    c = p.case
    v = rng.choice((0, 1, -1, 2**63 - 1, -2**63, 2**63, -2**63 - 1, 2**64 - 1, -2**64 + 1, 2**64, -2**64, 2**62,
                    2**31, -2**31, 2**32, -2**32, rng.getrandbits(63), -rng.getrandbits(63),
                    rng.getrandbits(64), -rng.getrandbits(64), 2**63 - 1 - rng.getrandbits(20),
                    -2**63 + rng.getrandbits(20), -2**63 - rng.getrandbits(40), 2**rng.randrange(0, 70),
                    -2**rng.randrange(0, 70), rng.getrandbits(130), -rng.getrandbits(130)))
    fits = -2**63 <= v < 2**63
    if fits and rng.random() < 0.6:
        if rng.random() < 0.5:
            p.fresh(0)
            c.c("seti 0 %d" % v, "0")
            c.tag("set_int/sign%d" % sgn(v))
        else:
            c.c("minit 0 int %d" % v, "0")
            c.tag("init_int/sign%d" % sgn(v))
        p.v[0] = v
        p.get(0)
    else:
        p.set(0, v)
    if fits:
        c.tag("get_int/bits%d%s" % (abs(v).bit_length(), "-" if v < 0 else ""))
        c.c("geti 0", "0,%d" % v)
    else:
        c.tag("get_int/refused%s" % ("-" if v < 0 else ""))
        c.c("geti 0", lambda o: None if o.split(",")[0] != "0" else "does not fit but no error")
    p.get(0)
    return c


def g_misc(rng, ctx):
    p = Prog(rng, 2, 300, ctx["consts"])
    c = p.case
    p.fresh(0)
    k = rng.randrange(4)
    if k == 0:
        c.tag("init_copy")
        c.c("minit 1 copy 0", "0")
        p.v[1] = p.v[0]
    elif k == 1:
        c.tag("init_size")
        c.c("minit 1 size %d" % rng.randrange(0, 20), "0")
    elif k == 2:
        c.tag("init")
        c.c("minit 1 plain", "0")
    else:
        c.tag("init_list")
        c.c("mlist", "0,0,0,0,0,0,0")
    p.all()
    return c


def cases(rng, w, count, ctx):
    gens = (g_bin, g_bin, g_str, g_str, g_sstr, g_int, g_misc)
    for i in range(count):
        yield rng.choice(gens)(rng, ctx)


def huge(rng, w, count, ctx):
    """Byte strings of more than 2^16 bytes and digits."""
    for n in [65535, 65536, 65537, 70000, 131072, 524287, 524288, 524289, 600000, 200001, 262144, 262143, 100000, 300000, 400000, 550000][w::8]:
        c = Case("huge bytes")
        b = rng.choice((b"\0\0\0", b"\xff", b"\1", b"")) + rng.randbytes(n)
        v = int.from_bytes(b, "big")
        m = (v.bit_length() + 7) // 8
        c.c("lbin 0 %s" % hx(b), "0").c("mg 0", mh(v)).c("minit 1 bin %s" % hx(b), "0").c("mg 1", mh(v))
        c.c("sbin 0 %d 0" % m, "0,%s" % hx(b[-m:])).c("sbin 0 %d 1" % (m + 9), "0,%s" % hx(bytes(9) + b[-m:]))
        c.c("sbin 0 %d 1" % (m - 1), lambda o: None if o[0] == "-" else "too small but no error")
        yield c
    # text: quadratic in the library, so shorter
    for radix in (2, 3, 8, 10, 16)[w::5]:
        n = ctx["text"]
        v = rng.getrandbits(n) | 1 << (n - 1)
        t = text(v, radix)
        c = Case("huge text")
        c.c("lstr 0 %d %s" % (radix, hx(t.encode())), "0").c("mg 0", mh(v))
        c.c("sstr 0 %d %d" % (radix, len(t) + 1), "0," + hx(t.encode()))
        yield c


def check(run):
    n = 25000 if run.tier == "quick" else 150000
    run.sweep(cases, run.bins("asan", "rel"), n, batch=1000)
    run.sweep(huge, run.bins("rel"), 0, cpu=120, ctx={"text": 70000 if run.tier == "quick" else 300000}, label="huge")
    return run.finish("exploration", RULE, ["the text to be loaded is not empty and is NUL terminated",
                                            "destination of text output has room for sign, digits and NUL"],
                      require=("huge bytes", "huge text", "store_bin/too small", "get_int/refused", "get_int/refused-", "load_str/radix16/rejected"))
