from vlib.engine import Case, hx
from vlib import gen, longrun

RULE = ("Affine: keys of 0..40 elements (odd and even multipliers, all 128 invertible ones), messages of 0..200 bytes in "
        "and out of place, decrypt after encrypt. Hill: random matrices of dimension 1..10 (invertible and singular, "
        "keys cut to the largest square, generated keys, supplied inverse), whole blocks in and out of place and "
        "zero-padded tails, compared with the matrix product modulo 256; the returned inverse is checked by "
        "multiplication, acceptance against the parity of the determinant. Distinct by hash of all commands."
        " Rows and data of high bytes give the largest sums; dimensions 9 and 10 have a layer of their own."
        " Long layer: messages beyond 2^16 and 2^20 bytes in one call against small calls.")


def det2(m, n):
    """Determinant modulo 2 by Gaussian elimination."""
    rows = [sum((m[i * n + j] & 1) << j for j in range(n)) for i in range(n)]
    for j in range(n):
        p = next((i for i in range(j, n) if rows[i] >> j & 1), None)
        if p is None:
            return 0
        rows[j], rows[p] = rows[p], rows[j]
        for i in range(j + 1, n):
            if rows[i] >> j & 1:
                rows[i] ^= rows[j]
    return 1


def mul(m, v, n):
    return bytes(sum(m[i * n + j] * v[j] for j in range(n)) & 255 for i in range(n))


def ident(a, b, n):
    return all(sum(a[i * n + k] * b[k * n + j] for k in range(n)) % 256 == (i == j)
               for i in range(n) for j in range(n))


def apply(m, d, n):
    out = b""
    for i in range(0, len(d), n):
        out += mul(m, d[i:i + n].ljust(n, b"\0"), n)
    return out


def inverse(m, n):
    """Inverse modulo 256 by Newton lifting from the inverse modulo 2."""
    a = [[m[i * n + j] & 1 for j in range(n)] + [int(i == j) for j in range(n)] for i in range(n)]
    for j in range(n):
        p = next(i for i in range(j, n) if a[i][j])
        a[j], a[p] = a[p], a[j]
        for i in range(n):
            if i != j and a[i][j]:
                a[i] = [x ^ y for x, y in zip(a[i], a[j])]
    x = [r[n:] for r in a]
    M = [[m[i * n + j] for j in range(n)] for i in range(n)]
    mm = lambda A, B: [[sum(A[i][k] * B[k][j] for k in range(n)) & 255 for j in range(n)] for i in range(n)]
    for _ in range(3):
        mx = mm(M, x)
        t = [[((2 if i == j else 0) - mx[i][j]) & 255 for j in range(n)] for i in range(n)]
        x = mm(x, t)
    return bytes(v for r in x for v in r)


def matrix(rng, n):
    k = rng.random()
    m = bytearray(gen.data_bytes(rng, n * n))
    if k < 0.3:
        for i in range(n):
            m[i * n + i] |= 1
            for j in range(i):
                m[i * n + j] &= 0xfe                 # odd determinant
    elif k < 0.45 and n > 1:
        i, j = rng.sample(range(n), 2)
        m[i * n:i * n + n] = m[j * n:j * n + n]      # singular
    elif k < 0.55:
        for i in range(n * n):
            m[i] = int(i // n == i % n)
        for _ in range(2 * n):
            i, j = rng.randrange(n), rng.randrange(n)
            if i != j:
                f = rng.randrange(256)
                for t in range(n):
                    m[i * n + t] = (m[i * n + t] + f * m[j * n + t]) & 255
    return bytes(m)


def hill(rng, ctx, n, plain=False):
    c = Case()
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    m = matrix(rng, n)
    while plain and not det2(m, n):         # random and invertible
        m = rng.randbytes(n * n)
    key = m + rng.randbytes(rng.choice((0, 0, 0, rng.randrange(0, 2 * n + 1) if n < 10 else rng.randrange(0, 40))))
    ok = det2(m, n)
    st = {}

    def init(o):
        f = o.split(",")
        if (f[0] == "0") != bool(ok):
            return "determinant is %s but the key was %s" % ("odd" if ok else "even", "accepted" if f[0] == "0" else "refused")
        if not ok:
            return None
        if f[1] != str(n) or bytes.fromhex(f[2]) != m:
            return "dimension or key differ"
        if not ident(m, bytes.fromhex(f[3]), n):
            return "inverse key is no inverse"
        return None
    give = ok and not plain and rng.random() < 0.3
    c.c("hill 0 %s %s %d" % (hx(key), hx(inverse(m, n) + key[n * n:]) if give else "@", len(key)), init)
    c.tag("hill/dim %d %s" % (n, "ok" if ok else "refused"))
    if give:
        c.tag("hill/inverse given")
    if len(key) > n * n:
        c.tag("hill/key cut")
    if not ok:
        return c
    for _ in range(3):
        d = gen.data_bytes(rng, n * rng.randrange(0, 6))
        e = apply(m, d, n)
        c.c("e%s 0 %s" % (rng.choice("io"), hx(d)), hx(e))
        c.c("d%s 0 %s" % (rng.choice("io"), hx(e)), hx(d))
    d = gen.data_bytes(rng, rng.randrange(0, 40))
    e = apply(m, d, n)
    c.c("hilt 0 %s %d" % (hx(d), len(e)), hx(e))
    c.c("do 0 %s" % hx(e), hx(d + bytes(len(e) - len(d))))
    return c


def hillhigh(rng, ctx, n):
    """The largest sums: rows and data of high bytes, with a supplied inverse (no determinant is computed)."""
    while True:
        m = bytearray(rng.randbytes(n * n))
        for _ in range(rng.randrange(1, 3)):
            i = rng.randrange(n)
            m[i * n:i * n + n] = bytes(rng.choice((255, 255, 255, 254, 128)) for _ in range(n)) if rng.random() < 0.4 else b"\xff" * n
        if rng.random() < 0.3:
            m = bytearray(x | 0x80 for x in m)
        m = bytes(m)
        if det2(m, n):
            break
    inv = inverse(m, n)
    c = Case("hill/high sums %d" % n)
    c.c("hill 0 %s %s %d" % (hx(m), hx(inv), n * n))
    for d in (b"\xff" * (2 * n), bytes(rng.choice((255, 254, 253)) for _ in range(n)), b"\x80" * n, rng.randbytes(2 * n)):
        e = apply(m, d, n)
        c.c("e%s 0 %s" % (rng.choice("io"), hx(d)), hx(e))
        c.c("d%s 0 %s" % (rng.choice("io"), hx(e)), hx(d))
        c.c("do 0 %s" % hx(d), hx(apply(inv, d, n)))
    return c


def hillgen(rng, ctx, n):
    c = Case("hill/generated")
    c.c("seed %s" % rng.randbytes(32).hex())

    def init(o):
        f = o.split(",")
        if f[0] != "0":
            return None if f[0] == "-1" else "unknown code"
        if f[1] != str(n):
            return "dimension"
        if not ident(bytes.fromhex(f[2]), bytes.fromhex(f[3]), n):
            return "generated keys are not inverse"
        return None
    c.c("hill 0 @ @ %d" % (n * n), init)
    d = gen.data_bytes(rng, n * 3)
    c.c("eo 0 %s" % hx(d))

    def fin(outs):
        f = outs[1].split(",")
        if f[0] == "0" and outs[2] != hx(apply(bytes.fromhex(f[2]), d, n)):
            return "encryption with the generated key"
    c.final = fin
    return c


def affine(rng, ctx):
    c = Case()
    c.c("fill %d" % rng.choice((0, 0xA5, 0xFF))).c("mis %d" % rng.randrange(16))
    n = rng.choice((0, 1, 1, 2, 3, 31, 32, 33, rng.randrange(1, 41)))
    a, b = bytearray(gen.data_bytes(rng, n)), gen.data_bytes(rng, n)
    k = rng.random()
    if k < 0.75:
        a = bytearray(x | 1 for x in a)
    if k < 0.15 and n:
        a[rng.randrange(n)] &= 0xfe
    a = bytes(a)
    m = min(n, 32)
    ok = n > 0 and all(x & 1 for x in a[:m])
    c.c("aff 0 %s %s" % (hx(a), hx(b)), lambda o: None if (o == "0") == ok else "key %s" % ("refused" if ok else "accepted"))
    c.tag("affine/len %s %s" % (n if n in (0, 1, 32, 33) else "other", "ok" if ok else "refused"))
    if not ok:
        return c
    for x in a[:m]:
        c.tag("affine/a=%02x" % x)
    for _ in range(3):
        d = gen.data_bytes(rng, gen.length(rng, 200, 16, ctx["consts"]))
        e = bytes((x * a[i % m] + b[i % m]) & 255 for i, x in enumerate(d))
        c.c("e%s 0 %s" % (rng.choice("io"), hx(d)), hx(e))
        c.c("d%s 0 %s" % (rng.choice("io"), hx(e)), hx(d))
    return c


def cases(rng, w, count, ctx):
    for n in range(1, 10):
        for _ in range(8 if n < 8 else 3 if n == 8 else 1):
            yield hill(rng, ctx, n)
        if n < 8:
            yield hillgen(rng, ctx, n)
    for n in range(1, 11):
        for _ in range(3):
            yield hillhigh(rng, ctx, n)
    if w < ctx["ten"]:
        yield hill(rng, ctx, 10)
    if w == 0:
        c = Case("hill/inverse only")
        c.c("hill 0 @ %s %d" % (hx(rng.randbytes(9)), 9), lambda o: None if o.startswith("-1,") else "inverse without key accepted")
        yield c
        c = Case("hill/empty key")
        c.c("hill 0 - @ 0", lambda o: None if o.startswith("-1,") else "empty key accepted")
        yield c
    for i in range(count):
        yield affine(rng, ctx) if i % 2 else hill(rng, ctx, rng.choice((1, 2, 2, 3, 3, 4, 5, 6)))


def tens(rng, w, count, ctx):
    """The largest dimensions, without a supplied inverse."""
    for i in range(count):
        yield hill(rng, ctx, 10 if i % 3 else 9, i % 6 > 1)


def longs(rng, w, count, ctx):
    """Data beyond 2^16 bytes and blocks in one call against short calls (keys whose length divides the short ones)."""
    for n in (1, 2, 4, 8):
        for op in ("eo", "ei", "do", "di"):
            for size in longrun.sizes(rng, n)[w::8]:
                m = bytearray(rng.randbytes(n * n))
                for i in range(n):
                    m[i * n + i] |= 1
                    for j in range(i):
                        m[i * n + j] &= 0xfe
                yield longrun.pair(rng, ["hill %%d %s %s %d" % (hx(bytes(m)), hx(inverse(bytes(m), n)), n * n)], op, size, [], "hill")
    for n in (1, 2, 4, 8, 16, 32)[w::8]:
        for op in ("eo", "ei", "do", "di"):
            for size in longrun.sizes(rng, n):
                a = bytes(x | 1 for x in rng.randbytes(n))
                yield longrun.pair(rng, ["aff %%d %s %s" % (hx(a), hx(rng.randbytes(n)))], op, size, [], "affine")


def check(run):
    q = run.tier == "quick"
    run.sweep(cases, run.bins("asan", "rel"), 3000 if q else 12000, cpu=60, ctx={"ten": 3 if q else 8})
    run.sweep(tens, run.bins("rel"), 18 if q else 60, cpu=60, label="ten")
    run.sweep(longs, run.bins("rel"), 0, cpu=60, label="long")
    return run.finish("exploration", RULE, ["a supplied inverse key is trusted", "Hill output buffers hold whole blocks"],
                      require=["long/hill", "long/affine"] + ["hill/dim %d ok" % n for n in range(1, 11)] + ["hill/dim %d refused" % n for n in range(1, 11)] +
                      ["hill/high sums %d" % n for n in range(1, 11)] + ["hill/inverse given", "hill/key cut", "hill/generated", "hill/empty key", "affine/len 0 refused",
                       "affine/len 33 ok"] + ["affine/a=%02x" % a for a in range(1, 256, 2)])
