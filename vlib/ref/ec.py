"""Elliptic curves: reference arithmetic and the published parameters of the built-in curves
(SEC 2 and RFC 5639)."""

BUILTIN = [
    ("secp192r1",
     0xfffffffffffffffffffffffffffffffeffffffffffffffff,
     0xfffffffffffffffffffffffffffffffefffffffffffffffc,
     0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1,
     0x188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012,
     0x7192b95ffc8da78631011ed6b24cdd573f977a11e794811,
     0xffffffffffffffffffffffff99def836146bc9b1b4d22831),
    ("secp224r1",
     0xffffffffffffffffffffffffffffffff000000000000000000000001,
     0xfffffffffffffffffffffffffffffffefffffffffffffffffffffffe,
     0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4,
     0xb70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21,
     0xbd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34,
     0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d),
    ("secp256r1",
     0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff,
     0xffffffff00000001000000000000000000000000fffffffffffffffffffffffc,
     0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
     0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
     0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5,
     0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551),
    ("secp384r1",
     0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff,
     0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc,
     0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
     0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
     0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f,
     0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973),
    ("secp521r1",
     0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff,
     0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc,
     0x51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
     0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
     0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650,
     0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409),
    ("secp192k1",
     0xfffffffffffffffffffffffffffffffffffffffeffffee37,
     0x0,
     0x3,
     0xdb4ff10ec057e9ae26b07d0280b7f4341da5d1b1eae06c7d,
     0x9b2f2f6d9c5628a7844163d015be86344082aa88d95e2f9d,
     0xfffffffffffffffffffffffe26f2fc170f69466a74defd8d),
    ("secp224k1",
     0xfffffffffffffffffffffffffffffffffffffffffffffffeffffe56d,
     0x0,
     0x5,
     0xa1455b334df099df30fc28a169a467e9e47075a90f7e650eb6b7a45c,
     0x7e089fed7fba344282cafbd6f7e319f7c0b0bd59e2ca4bdb556d61a5,
     0x10000000000000000000000000001dce8d2ec6184caf0a971769fb1f7),
    ("secp256k1",
     0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f,
     0x0,
     0x7,
     0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
     0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8,
     0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141),
    ("bp256r1",
     0xa9fb57dba1eea9bc3e660a909d838d726e3bf623d52620282013481d1f6e5377,
     0x7d5a0975fc2c3057eef67530417affe7fb8055c126dc5c6ce94a4b44f330b5d9,
     0x26dc5c6ce94a4b44f330b5d9bbd77cbf958416295cf7e1ce6bccdc18ff8c07b6,
     0x8bd2aeb9cb7e57cb2c4b482ffc81b7afb9de27e1e3bd23c23a4453bd9ace3262,
     0x547ef835c3dac4fd97f8461a14611dc9c27745132ded8e545c1d54c72f046997,
     0xa9fb57dba1eea9bc3e660a909d838d718c397aa3b561a6f7901e0e82974856a7),
    ("bp384r1",
     0x8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b412b1da197fb71123acd3a729901d1a71874700133107ec53,
     0x7bc382c63d8c150c3c72080ace05afa0c2bea28e4fb22787139165efba91f90f8aa5814a503ad4eb04a8c7dd22ce2826,
     0x4a8c7dd22ce28268b39b55416f0447c2fb77de107dcd2a62e880ea53eeb62d57cb4390295dbc9943ab78696fa504c11,
     0x1d1c64f068cf45ffa2a63a81b7c13f6b8847a3e77ef14fe3db7fcafe0cbd10e8e826e03436d646aaef87b2e247d4af1e,
     0x8abe1d7520f9c2a45cb1eb8e95cfd55262b70b29feec5864e19c054ff99129280e4646217791811142820341263c5315,
     0x8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b31f166e6cac0425a7cf3ab6af6b7fc3103b883202e9046565),
    ("bp512r1",
     0xaadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca703308717d4d9b009bc66842aecda12ae6a380e62881ff2f2d82c68528aa6056583a48f3,
     0x7830a3318b603b89e2327145ac234cc594cbdd8d3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94ca,
     0x3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94cadc083e67984050b75ebae5dd2809bd638016f723,
     0x81aee4bdd82ed9645a21322e9c4c6a9385ed9f70b5d916c1b43b62eef4d0098eff3b1f78e2d0d48d50d1687b93b97d5f7c6d5047406a5e688b352209bcb9f822,
     0x7dde385d566332ecc0eabfa9cf7822fdf209f70024a57b1aa000c55b881f8111b2dcde494a5f485e5bca4bd88a2763aed1ca2b2fa8f0540678cd1e0f3ad80892,
     0xaadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca70330870553e5c414ca92619418661197fac10471db1d381085ddaddb58796829ca90069),
]


def inv(a, p):
    return pow(a, -1, p)


class Curve:
    """y^2 = x^3 + a x + b over GF(p); points are (x, y) or None (infinity)."""

    def __init__(self, p, a, b, g=None, n=None):
        self.p, self.a, self.b, self.g, self.n = p, a % p, b % p, g, n

    def on(self, P):
        return P is None or (P[1] * P[1] - P[0] ** 3 - self.a * P[0] - self.b) % self.p == 0

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def add(self, P, Q):
        p = self.p
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * inv(2 * P[1], p) % p
        else:
            l = (Q[1] - P[1]) * inv(Q[0] - P[0], p) % p
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def mul(self, k, P):
        """Jacobian double-and-add, independent of the affine formulas."""
        p, a = self.p, self.a
        if P is None or k == 0:
            return None
        R = None                        # (X, Y, Z)
        for bit in bin(k)[2:]:
            if R is not None:
                X, Y, Z = R
                if Y == 0:
                    R = None
                else:
                    S = 4 * X * Y * Y % p
                    M = (3 * X * X + a * pow(Z, 4, p)) % p
                    X2 = (M * M - 2 * S) % p
                    R = X2, (M * (S - X2) - 8 * pow(Y, 4, p)) % p, 2 * Y * Z % p
            if bit == "1":
                if R is None:
                    R = P[0], P[1], 1
                else:
                    X, Y, Z = R
                    Z2 = Z * Z % p
                    H = (P[0] * Z2 - X) % p
                    r = (P[1] * Z2 * Z - Y) % p
                    if H == 0:
                        if r == 0:      # same point: double in affine form
                            zi = inv(Z, p)
                            A = (X * zi * zi % p, Y * zi * zi * zi % p)
                            A = self.add(A, A)
                            R = None if A is None else (A[0], A[1], 1)
                        else:
                            R = None
                    else:
                        H2 = H * H % p
                        H3 = H2 * H % p
                        X3 = (r * r - H3 - 2 * X * H2) % p
                        R = X3, (r * (X * H2 - X3) - Y * H3) % p, Z * H % p
        if R is None:
            return None
        zi = inv(R[2], p)
        return R[0] * zi * zi % p, R[1] * zi * zi * zi % p

    def lift(self, rng):
        """A random point."""
        from . import num
        while True:
            x = rng.randrange(self.p)
            y = num.sqrt_mod(x ** 3 + self.a * x + self.b, self.p)
            if y is not None:
                return x, (y if rng.random() < 0.5 else -y % self.p)

    def points(self):
        """All affine points of a small curve."""
        sq = {}
        for y in range(self.p):
            sq.setdefault(y * y % self.p, []).append(y)
        return [(x, y) for x in range(self.p) for y in sq.get((x ** 3 + self.a * x + self.b) % self.p, ())]

    def order(self, P):
        k, Q = 1, P
        while Q is not None:
            Q = self.add(Q, P)
            k += 1
        return k


CURVES = [Curve(p, a, b, (gx, gy), n) for _, p, a, b, gx, gy, n in BUILTIN]
NAMES = [c[0] for c in BUILTIN]

_small = {}


def small(rng, lo=5, hi=200):
    """A small curve with its points; prime field of at least 5 elements."""
    from . import num
    ps = [p for p in num.SMALL if lo <= p <= hi]
    while True:
        p = rng.choice(ps)
        a, b = rng.randrange(p), rng.randrange(p)
        if rng.random() < 0.2:
            a = 0
        if (4 * a ** 3 + 27 * b * b) % p == 0:
            continue
        k = p, a, b
        if k not in _small:
            c = Curve(p, a, b)
            _small[k] = c, c.points()
        c, pts = _small[k]
        if pts:
            return c, pts


def small_prime_order(rng, lo=11, hi=400):
    """A small curve of prime order n with generator (all points generate)."""
    from . import num
    while True:
        c, pts = small(rng, lo, hi)
        n = len(pts) + 1
        if num.is_prime(n) and n > 3:
            g = rng.choice(pts)
            return Curve(c.p, c.a, c.b, g, n), pts
