"""Hostile value generators shared by the workloads."""


def pick(rng, *opts):
    return rng.choice(opts)


# Word sizes of the digit types, used to build patterns at digit borders
WORDS = (8, 16, 32, 64)


def bits_size(rng, maxbits, consts=()):
    """A bit length biased to digit borders and to constants of the sources."""
    k = rng.random()
    if k < 0.35:
        n = 64 * rng.randrange(0, maxbits // 64 + 1) + rng.choice((-1, 0, 0, 1))
    elif k < 0.55:
        n = rng.randrange(0, min(maxbits, 300) + 1)
    elif k < 0.75:
        n = int(2 ** (rng.random() * (maxbits.bit_length() - 1)))
    elif k < 0.85 and consts:
        n = rng.choice(consts) * rng.choice((1, 8, 64)) + rng.choice((-1, 0, 1))
    else:
        n = rng.randrange(0, maxbits + 1)
    return max(0, min(n, maxbits))


def magnitude(rng, bits):
    """A non-negative integer of exactly `bits` bits with a hostile digit pattern."""
    if bits <= 0:
        return 0
    top = 1 << (bits - 1)
    k = rng.random()
    if k < 0.30:
        v = rng.getrandbits(bits)
    elif k < 0.42:
        v = (1 << bits) - 1                          # all ones
    elif k < 0.50:
        v = 0                                        # power of two
    elif k < 0.60:
        v = (1 << bits) - 1 - (1 << rng.randrange(bits))
    elif k < 0.68:
        v = (1 << rng.randrange(bits)) | rng.randrange(4)
    else:                                            # digit-wise pattern
        w = rng.choice(WORDS + (64, 64))
        full = (1 << w) - 1
        pal = (0, 0, full, full, 1, full - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1)
        v = 0
        run = 0
        d = 0
        for _ in range((bits + w - 1) // w):
            if run == 0:
                run = rng.choice((1, 1, 1, 2, 3, 8, 30))
                d = rng.choice(pal) if rng.random() < 0.8 else rng.getrandbits(w)
            run -= 1
            v = (v << w) | d
        v &= (1 << bits) - 1
    return v | top


def integer(rng, maxbits, consts=(), neg=0.4):
    v = magnitude(rng, bits_size(rng, maxbits, consts))
    if rng.random() < 0.03 and consts:
        v = rng.choice(consts) + rng.choice((-1, 0, 1))
    return -v if rng.random() < neg else v


def related(rng, a, maxbits):
    """An operand related to `a`, so that borrow chains, equality and near equality occur."""
    k = rng.randrange(9)
    m = abs(a)
    if k == 0:
        r = m
    elif k == 1:
        r = m + rng.choice((-1, 1))
    elif k == 2:
        r = m ^ (1 << rng.randrange(max(1, m.bit_length())))
    elif k == 3:
        r = (1 << m.bit_length()) - m
    elif k == 4:
        r = m << rng.choice((1, 8, 63, 64, 65, 128))
    elif k == 5:
        r = m >> rng.choice((1, 8, 63, 64, 65, 128))
    elif k == 6:
        r = m * rng.choice((2, 3, 5, 255, 2**64 - 1))
    elif k == 7:
        r = (1 << m.bit_length()) - 1 - m
    else:
        r = m + (1 << rng.randrange(max(1, m.bit_length())))
    r = max(0, r)
    if r.bit_length() > maxbits:
        r >>= r.bit_length() - maxbits
    return -r if rng.random() < 0.4 else r


def data_bytes(rng, n):
    """Byte strings with patterns."""
    k = rng.random()
    if n == 0:
        return b""
    if k < 0.6:
        return rng.randbytes(n)
    if k < 0.7:
        return bytes([rng.choice((0, 0xff, 0x80, 0x7f, 1))]) * n
    if k < 0.8:
        return bytes(rng.choice((0, 0xff)) for _ in range(n))
    if k < 0.9:
        b = bytearray(n)
        b[rng.randrange(n)] = rng.randrange(256)
        return bytes(b)
    return bytes((i * rng.randrange(1, 8)) & 255 for i in range(n))


def length(rng, maxlen, block=16, consts=()):
    k = rng.random()
    if k < 0.08:
        return 0
    if k < 0.35:
        n = rng.randrange(0, min(maxlen, 3 * block) + 1)
    elif k < 0.65:
        n = block * rng.randrange(0, maxlen // block + 1) + rng.choice((-1, 0, 0, 1))
    elif k < 0.75 and consts:
        c = [x for x in consts if x <= maxlen]
        n = (rng.choice(c) if c else 0) + rng.choice((-1, 0, 1))
    else:
        n = int(2 ** (rng.random() * maxlen.bit_length())) - 1
    return max(0, min(n, maxlen))


def chunks(rng, n, unit=1, empties=True):
    """Splits n into consecutive pieces, all but the last multiples of unit."""
    out = []
    left = n
    style = rng.randrange(5)
    while left > 0:
        if style == 0:
            k = left
        elif style == 1:
            k = unit
        elif style == 2:
            k = unit * rng.randrange(1, 5)
        elif style == 3:
            k = unit * rng.choice((1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129))
        else:
            k = unit * rng.randrange(1, max(2, left // unit + 2))
        if len(out) > 40:
            k = left
        k = min(k, left)
        if empties and rng.random() < 0.08:
            out.append(0)
        out.append(k)
        left -= k
    if empties and rng.random() < 0.1:
        out.append(0)
    return out
