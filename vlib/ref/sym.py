"""Reference symmetric primitives written from the standards (FIPS 197, FIPS 46-3, SP 800-38A/B/D,
RFC 3394, RFC 4493, RC4, Trivium)."""
from functools import lru_cache

# --- AES -----------------------------------------------------------------


def _xt(a):
    return ((a << 1) ^ 0x11B) & 0xFF if a & 0x80 else a << 1


def _gm(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xt(a)
        b >>= 1
    return r


def _mk_sbox():
    s = [0] * 256
    for x in range(256):
        i = 0
        if x:
            for y in range(256):
                if _gm(x, y) == 1:
                    i = y
                    break
        v = 0
        for k in range(5):
            v ^= (i << k) | (i >> (8 - k))
        s[x] = (v & 0xFF) ^ 0x63
    return s


SB = _mk_sbox()
ISB = [0] * 256
for _i, _v in enumerate(SB):
    ISB[_v] = _i
# T tables over columns (big-endian words)
T0 = [(_gm(s, 2) << 24) | (s << 16) | (s << 8) | _gm(s, 3) for s in SB]
T1 = [((t >> 8) | (t << 24)) & 0xFFFFFFFF for t in T0]
T2 = [((t >> 8) | (t << 24)) & 0xFFFFFFFF for t in T1]
T3 = [((t >> 8) | (t << 24)) & 0xFFFFFFFF for t in T2]
M9, M11, M13, M14 = ([_gm(x, k) for x in range(256)] for k in (9, 11, 13, 14))


@lru_cache(maxsize=4096)
def aes_keys(key):
    nk = len(key) // 4
    nr = nk + 6
    w = [int.from_bytes(key[4 * i:4 * i + 4], "big") for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = w[-1]
        if i % nk == 0:
            t = ((t << 8) | (t >> 24)) & 0xFFFFFFFF
            t = (SB[t >> 24] << 24) | (SB[t >> 16 & 255] << 16) | (SB[t >> 8 & 255] << 8) | SB[t & 255]
            t ^= rc << 24
            rc = _xt(rc)
        elif nk == 8 and i % nk == 4:
            t = (SB[t >> 24] << 24) | (SB[t >> 16 & 255] << 16) | (SB[t >> 8 & 255] << 8) | SB[t & 255]
        w.append(w[i - nk] ^ t)
    return w, nr


def aes_enc_block(key, blk):
    w, nr = aes_keys(key)
    v = int.from_bytes(blk, "big")
    a, b, c, d = ((v >> s) & 0xFFFFFFFF for s in (96, 64, 32, 0))
    a ^= w[0]
    b ^= w[1]
    c ^= w[2]
    d ^= w[3]
    for r in range(1, nr):
        k = 4 * r
        a, b, c, d = (T0[a >> 24] ^ T1[b >> 16 & 255] ^ T2[c >> 8 & 255] ^ T3[d & 255] ^ w[k],
                      T0[b >> 24] ^ T1[c >> 16 & 255] ^ T2[d >> 8 & 255] ^ T3[a & 255] ^ w[k + 1],
                      T0[c >> 24] ^ T1[d >> 16 & 255] ^ T2[a >> 8 & 255] ^ T3[b & 255] ^ w[k + 2],
                      T0[d >> 24] ^ T1[a >> 16 & 255] ^ T2[b >> 8 & 255] ^ T3[c & 255] ^ w[k + 3])
    k = 4 * nr
    o = []
    for x, y, z, u, kk in ((a, b, c, d, w[k]), (b, c, d, a, w[k + 1]), (c, d, a, b, w[k + 2]), (d, a, b, c, w[k + 3])):
        o.append(((SB[x >> 24] << 24) | (SB[y >> 16 & 255] << 16) | (SB[z >> 8 & 255] << 8) | SB[u & 255]) ^ kk)
    return ((o[0] << 96) | (o[1] << 64) | (o[2] << 32) | o[3]).to_bytes(16, "big")


def aes_dec_block(key, blk):
    w, nr = aes_keys(key)
    s = list(blk)

    def ark(r):
        for i in range(4):
            v = w[4 * r + i]
            s[4 * i] ^= v >> 24
            s[4 * i + 1] ^= v >> 16 & 255
            s[4 * i + 2] ^= v >> 8 & 255
            s[4 * i + 3] ^= v & 255
    ark(nr)
    for r in range(nr - 1, -1, -1):
        s = [ISB[s[(4 * (((i >> 2) - (i & 3)) & 3)) + (i & 3)]] for i in range(16)]
        ark(r)
        if r:
            n = []
            for i in range(0, 16, 4):
                a, b, c, d = s[i:i + 4]
                n += [M14[a] ^ M11[b] ^ M13[c] ^ M9[d], M9[a] ^ M14[b] ^ M11[c] ^ M13[d],
                      M13[a] ^ M9[b] ^ M14[c] ^ M11[d], M11[a] ^ M13[b] ^ M9[c] ^ M14[d]]
            s = n
    return bytes(s)


# --- DES -----------------------------------------------------------------
IP = [58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32,
      24, 16, 8, 57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55,
      47, 39, 31, 23, 15, 7]
FP = [40, 8, 48, 16, 56, 24, 64, 32, 39, 7, 47, 15, 55, 23, 63, 31, 38, 6, 46, 14, 54, 22, 62, 30, 37, 5, 45, 13, 53,
      21, 61, 29, 36, 4, 44, 12, 52, 20, 60, 28, 35, 3, 43, 11, 51, 19, 59, 27, 34, 2, 42, 10, 50, 18, 58, 26, 33, 1,
      41, 9, 49, 17, 57, 25]
PP = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11,
      4, 25]
PC1 = [57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36, 63,
       55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4]
PC2 = [14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2, 41, 52, 31, 37, 47, 55,
       30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32]
SH = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1]

def _perm(v, n, tab):
    r = 0
    for t in tab:
        r = (r << 1) | (v >> (n - t) & 1)
    return r


SP = None


def _tables():
    global SP
    # the S-boxes of FIPS 46-3
    S = [
        [14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8,
         4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13],
        [15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5,
         0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9],
        [10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1,
         13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12],
        [7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9,
         10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14],
        [2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6,
         4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3],
        [12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8,
         9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13],
        [4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6,
         1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12],
        [13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2,
         7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11],
    ]
    SP = []
    for i in range(8):
        row = []
        for x in range(64):
            r = (x >> 4 & 2) | (x & 1)
            row.append(_perm(S[i][16 * r + (x >> 1 & 15)] << (28 - 4 * i), 32, PP))
        SP.append(row)


_tables()
# byte-wise tables for the initial and final permutations
_IPT = [[_perm(b << (56 - 8 * i), 64, IP) for b in range(256)] for i in range(8)]
_FPT = [[_perm(b << (56 - 8 * i), 64, FP) for b in range(256)] for i in range(8)]


@lru_cache(maxsize=4096)
def des_keys(key):
    k = _perm(int.from_bytes(key, "big"), 64, PC1)
    c, d = k >> 28, k & 0xFFFFFFF
    out = []
    for s in SH:
        c = ((c << s) | (c >> (28 - s))) & 0xFFFFFFF
        d = ((d << s) | (d >> (28 - s))) & 0xFFFFFFF
        k48 = _perm((c << 28) | d, 56, PC2)
        out.append([k48 >> (42 - 6 * i) & 63 for i in range(8)])
    return out


def _des(keys, blk):
    v = 0
    for i in range(8):
        v |= _IPT[i][blk[i]]
    l, r = v >> 32, v & 0xFFFFFFFF
    for k in keys:
        e = ((r & 1) << 33) | (r << 1) | (r >> 31)      # 34 bits: r32 r1..r32 r1
        f = 0
        for i in range(8):
            f |= SP[i][(e >> (28 - 4 * i) & 63) ^ k[i]]
        l, r = r, l ^ f
    v = ((r << 32) | l).to_bytes(8, "big")
    o = 0
    for i in range(8):
        o |= _FPT[i][v[i]]
    return o.to_bytes(8, "big")


def des_enc_block(key, blk):
    if len(key) == 8:
        return _des(des_keys(key), blk)
    a, b, c = key[:8], key[8:16], key[16:24] or key[:8]
    return _des(des_keys(c), _des(des_keys(b)[::-1], _des(des_keys(a), blk)))


def des_dec_block(key, blk):
    if len(key) == 8:
        return _des(des_keys(key)[::-1], blk)
    a, b, c = key[:8], key[8:16], key[16:24] or key[:8]
    return _des(des_keys(a)[::-1], _des(des_keys(b), _des(des_keys(c)[::-1], blk)))


BS = {"aes": 16, "des": 8}


def enc_block(ciph, key, blk):
    return aes_enc_block(key, blk) if ciph == "aes" else des_enc_block(key, blk)


def dec_block(ciph, key, blk):
    return aes_dec_block(key, blk) if ciph == "aes" else des_dec_block(key, blk)


def ecb(ciph, key, data, dec=False):
    n = BS[ciph]
    f = dec_block if dec else enc_block
    return b"".join(f(ciph, key, data[i:i + n]) for i in range(0, len(data) - n + 1, n))


def xor(a, b):
    n = min(len(a), len(b))
    return (int.from_bytes(a[:n], "big") ^ int.from_bytes(b[:n], "big")).to_bytes(n, "big")


# --- modes: each returns (output, next state) -------------------------------
def cbc(ciph, key, iv, data, dec):
    n = BS[ciph]
    out = []
    for i in range(0, len(data), n):
        b = data[i:i + n]
        if dec:
            out.append(xor(dec_block(ciph, key, b), iv))
            iv = b
        else:
            iv = enc_block(ciph, key, xor(b, iv))
            out.append(iv)
    return b"".join(out), iv


def ctr(ciph, key, iv, data):
    n = BS[ciph]
    out = []
    c = int.from_bytes(iv, "big")
    for i in range(0, len(data), n):
        out.append(xor(data[i:i + n], enc_block(ciph, key, c.to_bytes(n, "big"))))
        c = (c + 1) % (1 << (8 * n))
    return b"".join(out), c.to_bytes(n, "big")


def cfb(ciph, key, iv, data, dec):
    n = BS[ciph]
    out = []
    for i in range(0, len(data), n):
        b = data[i:i + n]
        o = xor(b, enc_block(ciph, key, iv))
        out.append(o)
        iv = b if dec else o
    return b"".join(out), iv


def cfb8(ciph, key, iv, data, dec):
    out = bytearray()
    for b in data:
        o = b ^ enc_block(ciph, key, iv)[0]
        out.append(o)
        iv = iv[1:] + bytes([b if dec else o])
    return bytes(out), iv


# --- GCM ---------------------------------------------------------------------
def _gf_table(h):
    """Products of h with every 4-bit polynomial position, for a windowed multiplication."""
    R = 0xE1 << 120
    t = []
    v = h
    for _ in range(128):
        t.append(v)
        v = (v >> 1) ^ R if v & 1 else v >> 1
    tab = []
    for i in range(16):             # byte i (from the most significant)
        row = [0] * 256
        for b in range(1, 256):
            low = b & -b
            row[b] = row[b ^ low] ^ t[8 * i + 7 - (low.bit_length() - 1)]
        tab.append(row)
    return tab


@lru_cache(maxsize=256)
def _ghtab(key):
    return _gf_table(int.from_bytes(aes_enc_block(key, bytes(16)), "big"))


def ghash(key, data):
    tab = _ghtab(key)
    y = 0
    for i in range(0, len(data), 16):
        y ^= int.from_bytes(data[i:i + 16].ljust(16, b"\0"), "big")
        z = 0
        for k, b in enumerate(y.to_bytes(16, "big")):
            z ^= tab[k][b]
        y = z
    return y.to_bytes(16, "big")


def _pad16(b):
    return b + bytes(-len(b) % 16)


def gcm(key, iv, aad, data, dec, taglen=16):
    if len(iv) == 12:
        j0 = iv + b"\0\0\0\1"
    else:
        j0 = ghash(key, _pad16(iv) + bytes(8) + (8 * len(iv)).to_bytes(8, "big"))
    c = int.from_bytes(j0[12:], "big")
    out = []
    for i in range(0, len(data), 16):
        c = (c + 1) & 0xFFFFFFFF
        out.append(xor(data[i:i + 16], aes_enc_block(key, j0[:12] + c.to_bytes(4, "big"))))
    o = b"".join(out)
    ct = data if dec else o
    s = ghash(key, _pad16(aad) + _pad16(ct) + (8 * len(aad)).to_bytes(8, "big") + (8 * len(ct)).to_bytes(8, "big"))
    return o, xor(s, aes_enc_block(key, j0))[:taglen]


# --- CMAC (RFC 4493) -----------------------------------------------------------
def cmac(key, msg):
    def dbl(b):
        v = int.from_bytes(b, "big")
        return ((v << 1) ^ (0x87 if v >> 127 else 0)).to_bytes(17, "big")[-16:]
    k1 = dbl(aes_enc_block(key, bytes(16)))
    k2 = dbl(k1)
    n = max(1, (len(msg) + 15) // 16)
    last = msg[16 * (n - 1):]
    last = xor(last, k1) if len(last) == 16 else xor((last + b"\x80").ljust(16, b"\0"), k2)
    x = bytes(16)
    for i in range(n - 1):
        x = aes_enc_block(key, xor(x, msg[16 * i:16 * i + 16]))
    return aes_enc_block(key, xor(x, last))


# --- RFC 3394 -------------------------------------------------------------------
def wrap(kek, data, a=b"\xa6" * 8):
    n = len(data) // 8
    r = [data[8 * i:8 * i + 8] for i in range(n)]
    for j in range(6):
        for i in range(n):
            b = aes_enc_block(kek, a + r[i])
            a = xor(b[:8], (n * j + i + 1).to_bytes(8, "big"))
            r[i] = b[8:]
    return a + b"".join(r)


def unwrap(kek, data):
    n = len(data) // 8 - 1
    a = data[:8]
    r = [data[8 * i + 8:8 * i + 16] for i in range(n)]
    for j in range(5, -1, -1):
        for i in range(n - 1, -1, -1):
            b = aes_dec_block(kek, xor(a, (n * j + i + 1).to_bytes(8, "big")) + r[i])
            a = b[:8]
            r[i] = b[8:]
    return b"".join(r) if a == b"\xa6" * 8 else None


# --- RC4 --------------------------------------------------------------------------
class RC4:
    def __init__(self, key):
        s = list(range(256))
        j = 0
        for i in range(256):
            j = (j + s[i] + key[i % len(key)]) & 255
            s[i], s[j] = s[j], s[i]
        self.s, self.i, self.j = s, 0, 0

    def crypt(self, data):
        s, i, j = self.s, self.i, self.j
        out = bytearray()
        for b in data:
            i = (i + 1) & 255
            j = (j + s[i]) & 255
            s[i], s[j] = s[j], s[i]
            out.append(b ^ s[(s[i] + s[j]) & 255])
        self.i, self.j = i, j
        return bytes(out)


# --- CRC -------------------------------------------------------------------------
def rev(v, n):
    return int(format(v, "0%db" % n)[::-1], 2)


def crc_bits(data, width, poly, init, refin, refout, xorout):
    r = init
    for b in data:
        if refin:
            b = rev(b, 8)
        r ^= b << (width - 8)
        for _ in range(8):
            r = ((r << 1) ^ poly) if r >> (width - 1) & 1 else r << 1
            r &= (1 << width) - 1
    if refout:
        r = rev(r, width)
    return r ^ xorout


# --- Trivium (bit-serial; eSTREAM byte order) ---------------------------------------
class Trivium:
    """a[0] is s1, b[0] is s94, c[0] is s178.  Register bits are kept as integers with s1 at bit 0."""

    def __init__(self, key, iv):
        self.a = int.from_bytes(key[:10].ljust(10, b"\0"), "little")
        self.b = int.from_bytes(iv[:10].ljust(10, b"\0"), "little")
        self.c = 7 << 108
        for _ in range(1152):
            self.bit()
        self.left = b""

    def bit(self):
        a, b, c = self.a, self.b, self.c
        t1 = (a >> 65 ^ a >> 92) & 1
        t2 = (b >> 68 ^ b >> 83) & 1
        t3 = (c >> 65 ^ c >> 110) & 1
        z = t1 ^ t2 ^ t3
        t1 ^= ((a >> 90) & (a >> 91) ^ (b >> 77)) & 1
        t2 ^= ((b >> 81) & (b >> 82) ^ (c >> 86)) & 1
        t3 ^= ((c >> 107 + 1) & (c >> 109) ^ (a >> 68)) & 1
        self.a = ((a << 1) | t3) & ((1 << 93) - 1)
        self.b = ((b << 1) | t1) & ((1 << 84) - 1)
        self.c = ((c << 1) | t2) & ((1 << 111) - 1)
        return z

    def stream(self, n):
        out = b""
        while len(out) < n:
            w = 0
            for _ in range(32):
                w = (w << 1) | self.bit()
            out += w.to_bytes(4, "little")
        return out[:n]

    def crypt(self, data):
        return xor(data, self.stream(len(data))) if data else b""
