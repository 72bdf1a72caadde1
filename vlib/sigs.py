"""Judging of DSA-like signatures (order n, both parts in [1, n-1])."""
from .engine import Case, hx, mh
from . import gen

ROUNDS = 1024           # signing gives up after this many unsuitable secrets


def digest(n, m):
    """Leftmost bits of the message, up to the bit length of n."""
    k = n.bit_length()
    z = int.from_bytes(m, "big")
    return z >> (8 * len(m) - k) if 8 * len(m) > k else z


def message(rng, n):
    nb = (n.bit_length() + 7) // 8
    r = rng.random()
    if r < 0.1:
        return b""
    if r < 0.25:
        return bytes(rng.choice((1, nb, nb + 3)))                     # z = 0
    if r < 0.35:                                                     # z = multiple of the order, z >= order
        return rng.choice((n, n - 1, n + 1)).to_bytes(nb + 1, "big")[-nb:]
    if r < 0.42:                                                     # far longer than the order
        return gen.data_bytes(rng, rng.choice((128, 255, 256, 257, 300, 512, rng.randrange(130, 1025))))
    return gen.data_bytes(rng, max(0, rng.choice((1, nb - 1, nb, nb, nb + 1, 20, 32, 64, 2 * nb, rng.randrange(1, 130)))))


def parts(rng, n, r, s):
    """A candidate pair: near a genuine one, at the borders or random."""
    k = rng.randrange(12)
    if k == 0:
        return r + n, s
    if k == 1:
        return r, s + n
    if k == 2:
        return r - n, s
    if k == 3:
        return r, s - n
    if k == 4:
        return r, -s % n
    if k == 5:
        return rng.choice(((0, s), (r, 0), (0, 0), (n, s), (r, n), (n, n)))
    if k == 6:
        return rng.choice(((-r, s), (r, -s), (-r, -s)))
    if k == 7:
        return s, r
    if k == 8:
        return r ^ (1 << rng.randrange(n.bit_length() + 1)), s
    if k == 9:
        return r, s ^ (1 << rng.randrange(n.bit_length() + 1))
    if k == 10:
        return rng.choice((1, n - 1, 2)), rng.choice((1, n - 1, 2))
    return rng.randrange(n + 2), rng.randrange(n + 2)


def tamper(rng, m):
    m = bytearray(m)
    k = rng.randrange(5)
    if k == 0 and m:
        m[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
    elif k == 1 and m:
        m.pop()
    elif k == 2:
        m.append(rng.randrange(256))
    elif k == 3:
        m = bytearray(gen.data_bytes(rng, len(m)))
    else:
        m = m[::-1]
    return bytes(m)


def special(rng, n):
    """A number in [1, n-1] with a hostile digit pattern, often of fewer digits than n."""
    b = n.bit_length()
    while True:
        v = gen.magnitude(rng, rng.choice((rng.randrange(1, b + 1), b, b - 1, max(1, b - 64), (b + 1) // 2, 64, 65, 63, 8, 1)))
        if rng.random() < 0.2:
            v = n - v
        if 0 < v < n:
            return v


def said(rng, n, z):
    """A message whose leftmost bits are z (z below 2^bits(n))."""
    k = n.bit_length()
    nb = (k + 7) // 8
    if rng.random() < 0.3 and (z.bit_length() + 7) // 8 * 8 <= k:
        return z.to_bytes((z.bit_length() + 7) // 8 + rng.randrange(nb - (z.bit_length() + 7) // 8 + (k % 8 == 0)), "big") if z else b""
    pad = 8 * nb - k
    m = ((z << pad) | rng.getrandbits(pad) if pad else z).to_bytes(nb, "big")
    return m + rng.randbytes(rng.choice((0, 0, 1, 8, 40)))


def sign_judge(ok, valid, fail):
    """ok(r, s): the equation holds; valid: a suitable secret exists; fail: giving up is conceivable."""
    def j(o):
        f = o.split(",")
        if f[0] != "0":
            return None if fail else "signing failed"
        if not valid:
            return "signature although no secret is suitable"
        r, s = int(f[1], 16), int(f[2], 16)
        if not ok(r, s):
            return "not a valid signature"
        if len(f) > 3 and f[3] != "0":
            return "own signature refused"
        return None
    return j


def answer(want):
    return lambda o: None if (o.split(",")[0] == "0") == want else "signature %s" % ("refused" if want else "accepted")


def same(o, r, s):
    return o.split(",")[1:3] == [mh(r), mh(s)]
