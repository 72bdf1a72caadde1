"""Reference number theory."""
import math, random

SMALL = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** 0.5) + 1))]


def mr(n, a):
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    x = pow(a, d, n)
    if x in (1, n - 1):
        return True
    for _ in range(s - 1):
        x = x * x % n
        if x == n - 1:
            return True
    return False


def is_prime(n):
    if n < 2:
        return False
    for p in SMALL[:60]:
        if n % p == 0:
            return n == p
    if n < 281 * 281:
        return True
    bases = SMALL[:13] if n < 3317044064679887385961981 else SMALL[:13] + [random.Random(n + i).randrange(2, n - 1) for i in range(24)]
    return all(mr(n, a) for a in bases)


def prime(rng, bits, cond=lambda p: True):
    while True:
        p = rng.getrandbits(bits) | (1 << (bits - 1)) | 1
        if bits == 2:
            p = rng.choice((2, 3))
        if is_prime(p) and cond(p):
            return p


def sqrt_mod(a, p):
    """Square root modulo a prime or None."""
    a %= p
    if a == 0:
        return 0
    if p == 2:
        return a
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, x = 0, t
        while x != 1:
            x = x * x % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r
