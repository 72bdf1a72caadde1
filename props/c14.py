import math
from vlib.engine import Case, hx, mh
from vlib import gen, sigs
from vlib.ref import num

RULE = ("Keys of 96..520 bits (also odd bit lengths) with several exponents, generated independently: messages of 0..~6 "
        "blocks around the block borders through encrypt, decrypt, sign and verify with PKCS#1 v1.5 and unpadded; every "
        "ciphertext and signature block is opened with the other key in Python and its format checked. Tampering: "
        "hand-made padded blocks of every malformation (first byte, block type, padding bytes, padding shorter than "
        "eight, no separator), values not lower than the modulus, changed bits, truncated, extended, swapped and "
        "repeated blocks, other messages (prefixes, extensions) and keys; acceptance compared with RFC 8017. Moduli "
        "below 12 bytes. Key generation with many seeds, checked arithmetically. Distinct by hash of all commands."
        " Long layer: messages of up to 5000 bytes in up to 600 blocks with a change anywhere, keys of 1024..2080 "
        "bits.")

_keys = {}


def key(rng, ctx, bits=None):
    """(n, e, d) from a pool that is different in every worker."""
    if bits is None:
        bits = rng.choice((96, 97, 100, 104, 128, 136, 160, 192, 193, 250, 256, 257, 320, 512))
    pool = _keys.setdefault(bits, [])
    if bits > 600:
        if len(pool) < 2:
            pool.append(big_key(rng, bits))
            return pool[-1]
        return rng.choice(pool)
    if len(pool) < 3:
        while True:
            e = rng.choice((3, 17, 257, 65537, 0))
            p = num.prime(rng, bits // 2)
            q = num.prime(rng, bits - bits // 2)
            f = (p - 1) * (q - 1)
            if e == 0:
                e = rng.randrange(3, f) | 1
            if p != q and (p * q).bit_length() == bits and math.gcd(e, f) == 1:
                break
        d = pow(e, -1, f if rng.random() < 0.5 else f // math.gcd(p - 1, q - 1))
        pool.append((p * q, e, d))
        return pool[-1]
    return rng.choice(pool)


def big_key(rng, bits):
    """A modulus of many small distinct primes: quick to find, the library's operations need no more."""
    e = rng.choice((3, 17, 65537))
    while True:
        ps, left = set(), bits
        while left > 160:
            ps.add(num.prime(rng, 64, lambda p: math.gcd(p - 1, e) == 1))
            left = bits - math.prod(ps).bit_length()
        ps.add(num.prime(rng, left + 1, lambda p: math.gcd(p - 1, e) == 1))
        n, l = math.prod(ps), math.lcm(*(p - 1 for p in ps))
        if n.bit_length() == bits:
            return n, e, pow(e, -1, l)


def size(n):
    return (n.bit_length() + 7) // 8


def load(c, s, k, pad, parts="ned"):
    c.c("kinit %d rsa %d" % (s, pad), "0")
    for f, v in zip("ned", k):
        if f in parts:
            c.c("kset %d %s %s" % (s, f, mh(v)))


def opened(n, k, exp, sign):
    """Payload of one padded block or None when malformed."""
    v = int.from_bytes(k, "big")
    if v >= n or len(k) != size(n):
        return None
    b = pow(v, exp, n).to_bytes(size(n), "big")
    if b[0] != 0 or b[1] != (1 if sign else 2):
        return None
    z = b.find(b"\0", 2)
    if z < 10:
        return None
    if sign and b[2:z] != b"\xff" * (z - 2):
        return None
    return b[z + 1:]


def blocks(n, t):
    m = size(n)
    return [t[i:i + m] for i in range(0, len(t), m)]


def open_all(n, t, exp, sign, pad):
    if not t or len(t) % size(n):
        return None
    out = b""
    for b in blocks(n, t):
        if pad:
            p = opened(n, b, exp, sign)
        else:
            v = int.from_bytes(b, "big")
            p = None if v >= n else pow(v, exp, n).to_bytes(size(n), "big")
        if p is None:
            return None
        out += p
    return out


def msg(rng, m, pad, ctx, n=None, long=False):
    unit = m - 11 if pad else m
    r = rng.random()
    if long:                                         # up to 600 short blocks, 5000 bytes in all
        top = min(5000, 600 * unit)
        ln = rng.choice((int(2 ** (8 + rng.random() * (top.bit_length() - 8))), 256 + rng.randrange(-2, 20),
                         unit * rng.choice((17, 64, 127, 128, 129, 255, 256, 257, 300)) + rng.choice((-1, 0, 1))))
        ln = min(ln, top)
    elif r < 0.1:
        ln = 0
    elif r < 0.6:
        ln = unit * rng.randrange(0, 5) + rng.choice((-1, 0, 1, 2))
    else:
        ln = gen.length(rng, 4 * m, unit, ctx["consts"])
    d = bytearray(gen.data_bytes(rng, max(0, ln)))
    if not pad and n is not None:
        top = n >> (8 * (m - 1))                     # keep every unpadded block below the modulus
        for i in range(0, len(d), m):
            d[i] %= max(1, top)
    return bytes(d)


def padded_to(d, m):
    k = max(1, -(-len(d) // m))
    return d.ljust(k * m, b"\0")


def crypt(rng, ctx, bits=None, long=False):
    pad = int(rng.random() < 0.75)
    k = n, e, d = key(rng, ctx, bits)
    m = size(n)
    c = Case()
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    c.c("seed %s" % rng.randbytes(32).hex())
    if rng.random() < 0.3:
        c.c("rnd %s" % hx(bytes(rng.choice((0, 0, 1, 255, rng.randrange(256))) for _ in range(rng.randrange(1, 200)))))
        c.tag("zero random bytes")
    load(c, 0, k, pad, "ne" if rng.random() < 0.5 else "ned")
    load(c, 1, k, pad, "nd" if rng.random() < 0.5 else "ned")
    x = msg(rng, m, pad, ctx, n, long)

    def judge(o):
        f = o.split(",")
        if f[0] != "0":
            return "encryption failed"
        ct = bytes.fromhex(f[2].replace("-", ""))
        if len(ct) % m or len(ct) != int(f[1]) or not ct:
            return "ciphertext length"
        if pad:
            p = open_all(n, ct, d, False, True)
            if p is None:
                return "ciphertext block is not standard-conforming"
            if p != x:
                return "ciphertext holds another message"
        else:
            exp = b"".join(pow(int.from_bytes(b, "big"), e, n).to_bytes(m, "big") for b in blocks(n, padded_to(x, m)))
            if exp != ct:
                return "not the modular power"
        if f[3] != "0":
            return "decryption failed"
        pt = bytes.fromhex(f[5].replace("-", ""))
        if pt != (x if pad else padded_to(x, m)) or len(pt) != int(f[4]):
            return "decryption returned something else"
        return None
    c.c("red 0 %s 1" % hx(x), judge)
    c.tag("crypt/%s blocks %d" % ("pkcs" if pad else "plain", min(5, max(1, -(-len(x) // (m - 11 if pad else m))))))
    if not x:
        c.tag("crypt/%s empty" % ("pkcs" if pad else "plain"))
    return c


def signs(rng, ctx, bits=None, long=False):
    pad = int(rng.random() < 0.75)
    k = n, e, d = key(rng, ctx, bits)
    m = size(n)
    c = Case()
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    load(c, 0, k, pad, "nd" if rng.random() < 0.5 else "ned")
    load(c, 1, k, pad, "ne" if rng.random() < 0.5 else "ned")
    x = msg(rng, m, pad, ctx, n, long)
    unit = m - 11 if pad else m
    # the signature is deterministic
    if pad:
        parts = [x[i:i + unit] for i in range(0, len(x), unit)] or [b""]
        raw = [b"\0\1" + b"\xff" * (m - 3 - len(p)) + b"\0" + p for p in parts]
    else:
        raw = blocks(n, padded_to(x, m))
    sig = b"".join(pow(int.from_bytes(b, "big"), d, n).to_bytes(m, "big") for b in raw)
    c.c("rsig 0 %s" % hx(x), "0,%d,%s" % (len(sig), hx(sig)))
    c.c("rver 1 %s %s" % (hx(sig), hx(x)), "0")
    c.c("rsv 0 %s 1 %s" % (hx(x), hx(x)), lambda o: None if o.endswith(",0") else "own signature refused")
    c.tag("sign/%s blocks %d" % ("pkcs" if pad else "plain", min(5, len(raw))))
    # other messages, signatures and keys
    for _ in range(5):
        y, t = bytearray(x), bytearray(sig)
        r = rng.randrange(10)
        if r == 0 and y:
            y[rng.choice((rng.randrange(len(y)), rng.randrange(len(y)), len(y) - 1))] ^= 1 << rng.randrange(8)
        elif r == 1:
            y = y[:rng.randrange(0, len(y) + 1)]
        elif r == 2:
            y += gen.data_bytes(rng, rng.choice((1, 2, m, unit)))
        elif r == 3:
            t[rng.randrange(len(t))] ^= 1 << rng.randrange(8)
        elif r == 4:
            t = t[:rng.choice((0, len(t) - 1, len(t) - m, 1, m - 1, rng.randrange(len(t))))]
        elif r == 5:
            t += rng.choice((b"\0", bytes(m), sig[:m], b"\0" * (m - 1)))
        elif r == 6:
            i = m * rng.randrange(len(t) // m)
            v = int.from_bytes(t[i:i + m], "big") + n
            if v < 1 << (8 * m):
                t[i:i + m] = v.to_bytes(m, "big")
                c.tag("sign/not reduced")
        elif r == 7:
            v = rng.choice((0, 1, n - 1, n, (1 << (8 * m)) - 1))
            t = bytearray(v.to_bytes(m, "big"))
            y = bytearray(rng.choice((b"", x, bytes(m))))
        elif r == 8:
            t = bytearray()
            y = bytearray(rng.choice((b"", x)))
            c.tag("sign/empty signature")
        else:
            t = bytearray(rng.randbytes(len(t)))
        o = open_all(n, bytes(t), e, True, pad)
        want = o is not None and o == (bytes(y) if pad else padded_to(bytes(y), m))
        c.c("rver 1 %s %s" % (hx(bytes(t)), hx(bytes(y))),
            (lambda o, want=want: None if (o == "0") == want else "signature %s" % ("refused" if want else "accepted")))
        c.tag("sign/%s tamper %d %s" % ("pkcs" if pad else "plain", r, "ok" if want else "reject"))
    n2, e2, d2 = key(rng, ctx, n.bit_length())
    if n2 != n:
        load(c, 2, (n2, e2, d2), pad)
        o = open_all(n2, sig, e2, True, pad)
        if o is None or o != (x if pad else padded_to(x, m)):
            c.c("rver 2 %s %s" % (hx(sig), hx(x)), lambda o: None if o != "0" else "signature of another key accepted")
            c.tag("sign/other key")
    return c


def malformed(rng, ctx, bits=None):
    """Hand-made blocks, right and wrong, through decryption and verification."""
    k = n, e, d = key(rng, ctx, bits)
    m = size(n)
    sign = rng.random() < 0.5
    c = Case()
    load(c, 0, k, 1)
    for _ in range(6):
        x = gen.data_bytes(rng, rng.choice((0, 1, m - 11, m - 10, m - 3, rng.randrange(0, m - 2))))
        ps = m - 3 - len(x)
        fill = bytes([0xff] * ps) if sign else bytes(rng.randrange(1, 256) for _ in range(ps))
        b = bytearray(bytes([0, 1 if sign else 2]) + fill + b"\0" + x)
        r = rng.randrange(8)
        if r == 1:
            b[0] = 1 << rng.randrange(8) if rng.random() < 0.7 else 0
        elif r == 2:
            b[1] = rng.choice((0, 1, 2, 3, 255, b[1] ^ 1 << rng.randrange(8), rng.randrange(256)))
        elif r == 3 and ps:
            for _ in range(rng.choice((1, 1, 2))):
                b[2 + rng.choice((0, ps - 1, rng.randrange(ps)))] = rng.choice((0, 1, 0xfe, 0x7f, 0xff ^ 1 << rng.randrange(8), rng.randrange(256)))
        elif r == 4:
            for i in range(2, m):
                b[i] = b[i] or 0xff
        elif r == 5:
            b[2 + rng.choice((0, 6, 7, 8, 9)) if m > 12 else 2] = 0
        elif r == 6:
            b = bytearray(rng.randbytes(m))
            b[0] = 0
        v = int.from_bytes(b, "big")
        if v >= n:
            continue
        t = pow(v, e if not sign else d, n)
        if r == 7 and t + n < 1 << (8 * m):
            t += n
        t = t.to_bytes(m, "big")
        good = opened(n, t, d if not sign else e, sign)
        k2 = "good" if good is not None else "bad"
        c.tag("%s block %s %d" % ("sign" if sign else "enc", k2, r))
        if sign:
            y = x if good is None else good
            if rng.random() < 0.3:                    # together with a good block on one side
                g0 = rng.randbytes(rng.randrange(0, m - 10))
                t0 = pow(int.from_bytes(b"\0\1" + b"\xff" * (m - 3 - len(g0)) + b"\0" + g0, "big"), d, n).to_bytes(m, "big")
                t, y = rng.choice(((t0 + t, g0 + y), (t + t0, y + g0)))
                c.tag("sign block %s of two" % k2)
            c.c("rver 0 %s %s" % (hx(t), hx(y)),
                (lambda o, g=good: None if (o == "0") == (g is not None) else "block %s" % ("refused" if g is not None else "accepted")))
        else:
            two = rng.random() < 0.4
            if two:                                   # together with a good block before it
                g0 = rng.randbytes(rng.randrange(0, m - 10))
                b0 = b"\0\2" + bytes(rng.randrange(1, 256) for _ in range(m - 3 - len(g0))) + b"\0" + g0
                t0 = pow(int.from_bytes(b0, "big"), e, n).to_bytes(m, "big")
                t = t0 + t
                good = None if good is None else g0 + good
            if good is not None:
                c.c("rdec 0 %s" % hx(t), "0,%d,%s" % (len(good), hx(good)))
            else:
                c.c("rdec 0 %s" % hx(t), lambda o: None if o[0] == "-" and o.endswith(",0,N") else "malformed ciphertext gave output")
    # wrong lengths
    t = rng.randbytes(rng.choice((0, 1, m - 1, m + 1, 2 * m - 1, 2 * m + 3)))
    t = t[:1].replace(t[:1], b"\0") + t[1:] if t else t
    c.c("rdec 0 %s" % hx(t), lambda o: None if o[0] == "-" and o.endswith(",0,N") else "wrong length accepted")
    return c


def plain_range(rng, ctx):
    """Unpadded decryption of arbitrary blocks, small moduli refused with padding."""
    c = Case("plain")
    k = n, e, d = key(rng, ctx)
    m = size(n)
    load(c, 0, k, 0)
    for _ in range(8):
        v = rng.choice((0, 1, n - 1, n, n + 1, rng.randrange(n), (1 << (8 * m)) - 1, sigs.special(rng, n), sigs.special(rng, n), n - sigs.special(rng, n),
                        n + sigs.special(rng, n), n ^ (1 << rng.randrange(n.bit_length())), pow(sigs.special(rng, n), e, n)))
        if v >> (8 * m):
            continue
        t = v.to_bytes(m, "big")
        if v < n:
            c.c("rdec 0 %s" % hx(t), "0,%d,%s" % (m, hx(pow(v, d, n).to_bytes(m, "big"))))
        else:
            c.c("rdec 0 %s" % hx(t), lambda o: None if o[0] == "-" and o.endswith(",0,N") else "value not lower than the modulus accepted")
    bits = rng.choice((16, 24, 40, 64, 80, 88))
    k = key(rng, ctx, bits)
    load(c, 1, k, 1)
    c.c("renc 1 %s" % hx(rng.randbytes(rng.randrange(0, 30))), lambda o: None if o[0] == "-" and o.endswith(",0,N") else "no room for padding")
    c.c("rsig 1 %s" % hx(rng.randbytes(rng.randrange(0, 30))), lambda o: None if o[0] == "-" and o.endswith(",0,N") else "no room for padding")
    c.tag("tiny modulus")
    # paddings the library does not know
    k = key(rng, ctx, rng.choice((128, 256, 264)))
    load(c, 2, k, rng.choice((2, 2, 3, 7)))
    m = rng.randbytes(rng.randrange(0, 4))
    v = rng.randrange(k[0]).to_bytes((k[0].bit_length() + 7) // 8, "big")
    for cmd in ("renc 2 " + hx(m), "rsig 2 " + hx(m), "rdec 2 " + hx(v)):
        c.c(cmd, lambda o: None if o[0] == "-" and o.endswith(",0,N") else "unknown padding accepted")
    c.tag("unknown padding")
    return c


def keygen(rng, bits, e):
    c = Case("keygen %d" % bits)
    c.c("seed %s" % rng.randbytes(32).hex())
    c.c("kinit 0 rsa 1", "0")
    c.c("kgen 0 %d %d" % (bits, e))
    c.c("kget 0")
    x = rng.randbytes(5)
    if bits >= 128:
        c.c("red 0 %s 0" % hx(x))
        c.c("rsv 0 %s 0 %s" % (hx(x), hx(x)))

    def fin(o):
        if o[2] != "0":
            if bits % 16 == 0 and bits >= 16 and (e == 0 or e % 2 and e > 1):
                return "key generation failed"
            return None
        n, ee, d, p, q = (int(v, 16) for v in o[3].split(","))
        if e and ee != e:
            return "exponent is not the requested one"
        if n.bit_length() != bits:
            return "modulus has %d bits" % n.bit_length()
        if p == q or not num.is_prime(p) or not num.is_prime(q) or p * q != n:
            return "modulus is not the product of two distinct primes"
        if (ee * d - 1) % ((p - 1) * (q - 1) // math.gcd(p - 1, q - 1)) or d <= 0:
            return "exponents do not match"
        if bits >= 128:
            f = o[4].split(",")
            if f[0] != "0" or f[3] != "0" or f[5] != x.hex():
                return "round trip with the generated key"
            if not o[5].endswith(",0"):
                return "signature with the generated key"
        return None
    c.final = fin
    return c


def cases(rng, w, count, ctx):
    for i in range(count):
        yield (crypt, crypt, signs, malformed, malformed, plain_range)[i % 6](rng, ctx)


def long_cases(rng, w, count, ctx):
    for i in range(count):
        c = (crypt, signs)[i % 2](rng, ctx, rng.choice((96, 100, 104, 128, 136, 192, 256, 512)), True)
        yield c.tag("long message")
        c = (crypt, signs, malformed)[i % 3](rng, ctx, rng.choice((1024, 1031, 2040, 2048, 2049, 2056, 2080)))
        yield c.tag("big modulus")


def gens(rng, w, count, ctx):
    for i in range(count):
        yield keygen(rng, rng.choice((32, 48, 64, 96, 128, 192, 256, 320)), rng.choice((0, 3, 17, 65537)))
    for i in range(4 * count):          # equal primes are drawn now and then
        yield keygen(rng, 16, rng.choice((0, 3, 3, 5, 7, 17, 65537)))
    if w == 0:
        for bits, e in ((128, 4), (128, 2), (100, 65537), (129, 3), (30, 3), (128, 1)):
            yield keygen(rng, bits, e).tag("keygen refused")
    if w == 1:
        yield keygen(rng, 512, 65537)


def check(run):
    q = run.tier == "quick"
    run.sweep(cases, run.bins("asan", "rel"), 400 if q else 3000, cpu=60)
    run.sweep(long_cases, run.bins("rel"), 12 if q else 150, cpu=120, label="long")
    run.sweep(long_cases, run.bins("asan"), 1 if q else 15, cpu=240, label="long, asan")
    run.sweep(gens, run.bins("asan", "rel"), 6 if q else 100, cpu=60, label="keygen")
    return run.finish("exploration", RULE, ["unpadded messages are blocks below the modulus, zero-filled on the right",
                                            "random streams are those of the library's generator and forced byte patterns"],
                      require=["crypt/pkcs blocks 3", "crypt/plain blocks 3", "crypt/pkcs empty", "zero random bytes",
                               "sign/pkcs blocks 3", "sign/not reduced", "sign/empty signature", "sign/other key",
                               "tiny modulus", "long message", "big modulus", "keygen refused", "unknown padding", "keygen 16"] +
                      ["%s block bad %d" % (k, r) for k in ("enc", "sign") for r in (2, 3, 4, 5)] +
                      ["sign/pkcs tamper %d reject" % r for r in (0, 1, 2, 3, 4, 5)])
