import math
from vlib.engine import Case, mh
from vlib.mpimodel import Prog, sgn, exp_fail
from vlib import gen

RULE = ("Operands with hostile digit patterns and algebraic relations: products with a planted common divisor, "
        "consecutive Fibonacci-like pairs, multiples of the modulus, even/odd and power-of-two moduli, modulus 1, "
        "perfect squares and their neighbours, exponents 0, 1, all-ones and sparse, negative bases; every aliasing, "
        "dirty destinations. Results are compared with Python's exact gcd/pow/isqrt. Distinct by hash of all commands.")


def num(rng, ctx, bits):
    return gen.magnitude(rng, gen.bits_size(rng, bits, ctx["consts"]))


def sign(rng, v, p=0.3):
    return -v if rng.random() < p else v


def pick(rng, n):
    return rng.randrange(n)


def g_gcd(rng, ctx, op):
    p = Prog(rng, 3, 300, ctx["consts"])
    bits = rng.choice((64, 128, 300, 600, 1500))
    k = rng.random()
    a, b = num(rng, ctx, bits), num(rng, ctx, bits)
    if k < 0.4:
        g = num(rng, ctx, bits)
        a, b = a * g, b * g
    elif k < 0.5:
        b = a * num(rng, ctx, 100)
    elif k < 0.6:
        x, y = 1, 1
        for _ in range(rng.randrange(2, 300)):
            x, y = y, x + y
        a, b = x, y
    elif k < 0.7:
        b = rng.choice((0, 1, a, 2 * a))
    if rng.random() < 0.3:
        a <<= rng.choice((1, 63, 64, 65, 130))
    if rng.random() < 0.3:
        b <<= rng.choice((1, 63, 64, 65, 130))
    if rng.random() < 0.5:
        a, b = b, a
    a, b = sign(rng, a), sign(rng, b)
    p.set(0, a)
    p.set(1, b)
    p.fresh(2)
    x, y = rng.choice(((0, 1), (0, 1), (0, 1), (0, 0)))
    r = pick(rng, 3)
    if y == 0:
        b = a
    val = math.gcd(a, b)
    if op == "lcm":
        val = abs(a * b) // val if val else 0
    p.case.tag("%s/%s/signs%d%d/gcd%s" % (op, p.alias(r, x, y), sgn(a), sgn(b), "=1" if math.gcd(a, b) == 1 else ">1"))
    p.res("%s %d %d %d" % (op, r, x, y), r, val)
    p.all()
    return p.case


def modulus(rng, ctx, bits):
    k = rng.random()
    if k < 0.5:
        m = num(rng, ctx, bits) | 1
    elif k < 0.7:
        m = 1 << rng.randrange(0, bits)
    elif k < 0.75:
        m = rng.choice((1, 2, 3, 4, 2**64, 2**64 - 1, 2**64 + 1, 2**63))
    else:
        m = num(rng, ctx, bits)
    return max(1, m)


def g_inv(rng, ctx):
    p = Prog(rng, 3, 300, ctx["consts"])
    bits = rng.choice((8, 64, 128, 256, 521, 1100))
    m = modulus(rng, ctx, bits)
    k = rng.random()
    if k < 0.6:
        a = num(rng, ctx, bits)
    elif k < 0.7:
        a = rng.choice((0, 1, m - 1, m, m + 1, 2 * m + 1, m // 2))
    elif k < 0.85:
        a = num(rng, ctx, bits) % m
    else:
        g = num(rng, ctx, bits // 2) | 1
        a, m = num(rng, ctx, bits // 2 + 1) * g, m * g
    a = sign(rng, a)
    p.set(0, a)
    p.set(1, m)
    p.fresh(2)
    r = pick(rng, 3)
    ok = math.gcd(a, m) == 1
    p.case.tag("inv/%s/sign%d/%s/%s" % (p.alias(r, 0, 1), sgn(a), "exists" if ok else "none", "even" if m % 2 == 0 else "odd"))
    if ok:
        p.res("inv %d 0 1" % r, r, pow(a, -1, m) if m > 1 else 0)
        p.all()
    else:
        p.case.c("inv %d 0 1" % r, exp_fail)
        for i in (0, 1):
            if i != r:
                p.get(i)
    return p.case


def g_modexp(rng, ctx):
    p = Prog(rng, 4, 300, ctx["consts"])
    bits = rng.choice((8, 64, 65, 128, 256, 300, 521, 1024)) if rng.random() < 0.9 else 2100
    ebits = bits if bits < 600 else rng.choice((17, 64, 130, 200))
    m = modulus(rng, ctx, bits)
    b = num(rng, ctx, bits + rng.choice((0, 0, 64)))
    if rng.random() < 0.15:
        b = rng.choice((0, 1, m, m - 1, m + 1, 2 * m, 2))
    e = num(rng, ctx, ebits)
    if rng.random() < 0.2:
        e = rng.choice((0, 1, 2, 3, 65537, 2**64, 2**64 - 1))
    b = sign(rng, b)
    p.set(0, b)
    p.set(1, e)
    p.set(2, m)
    p.fresh(3)
    r = pick(rng, 4)
    k = rng.random()
    if k < 0.04:
        p.set(1, -max(1, e))
        p.case.tag("modexp/negative exponent")
        p.case.c("modexp 3 0 1 2", exp_fail)
        return p.case
    if k < 0.06:
        p.set(2, -m)
        p.case.tag("modexp/negative modulus")
        p.case.c("modexp 3 0 1 2", exp_fail)
        return p.case
    if k < 0.08:
        p.set(2, 0)
        p.case.tag("modexp/zero modulus")
        p.case.c("modexp 3 0 1 2", exp_fail)
        return p.case
    p.case.tag("modexp/%s/base%d/exp%s/mod%s" % (p.alias(r, 0, 1, 2), sgn(b), "0" if e == 0 else "1" if e == 1 else "n",
                                                 "1" if m == 1 else "even" if m % 2 == 0 else "odd"))
    p.res("modexp %d 0 1 2" % r, r, pow(b, e, m))
    p.all()
    return p.case


def g_exp(rng, ctx):
    p = Prog(rng, 3, 300, ctx["consts"])
    b = sign(rng, num(rng, ctx, rng.choice((3, 64, 130, 300))), 0.4)
    e = rng.choice((0, 1, 2, 3, 4, 7, 8, 15, 16, 31, rng.randrange(0, 40)))
    if b in (0, 1, -1) and rng.random() < 0.5:
        e = num(rng, ctx, 70)
    if abs(b).bit_length() * e > 12000 and abs(b) > 1:
        e = 3
    p.set(0, b)
    p.set(1, e)
    p.fresh(2)
    r = pick(rng, 3)
    if rng.random() < 0.04:
        p.set(1, -max(e, 1))
        p.case.tag("exp/negative exponent")
        p.case.c("exp 2 0 1", exp_fail)
        return p.case
    p.case.tag("exp/%s/base%d/exp%s" % (p.alias(r, 0, 1), sgn(b), e if e < 4 else "odd" if e % 2 else "even"))
    if e > 1 << 20:
        val = 1 if e % 2 == 0 and b else b
    else:
        val = b ** e
    p.res("exp %d 0 1" % r, r, val)
    p.all()
    return p.case


def g_sqrt(rng, ctx):
    p = Prog(rng, 2, 300, ctx["consts"])
    bits = rng.choice((8, 64, 128, 129, 300, 1000, 3000))
    k = rng.random()
    if k < 0.5:
        s = num(rng, ctx, bits)
        a = max(0, s * s + rng.choice((-1, 0, 1, 2 * s, 2 * s + 1)))
    elif k < 0.6:
        a = rng.randrange(0, 70)
    else:
        a = num(rng, ctx, bits)
    p.set(0, a)
    p.fresh(1)
    if rng.random() < 0.05:
        p.set(0, -max(1, a))
        p.case.tag("sqrt/negative")
        p.case.c("sqrt 1 0", exp_fail)
        return p.case
    r = pick(rng, 2)
    p.case.tag("sqrt/%s/%s" % (p.alias(r, 0), p.szclass(a)), "sqrt/digits%d" % ((a.bit_length() + 63) // 64))
    p.res("sqrt %d 0" % r, r, math.isqrt(a))
    p.all()
    return p.case


def cases(rng, w, count, ctx):
    for i in range(count):
        k = rng.random()
        if k < 0.2:
            yield g_gcd(rng, ctx, "gcd")
        elif k < 0.3:
            yield g_gcd(rng, ctx, "lcm")
        elif k < 0.55:
            yield g_inv(rng, ctx)
        elif k < 0.75:
            yield g_modexp(rng, ctx)
        elif k < 0.85:
            yield g_exp(rng, ctx)
        else:
            yield g_sqrt(rng, ctx)


def check(run):
    n = 16000 if run.tier == "quick" else 80000
    run.sweep(cases, run.bins("asan", "rel"), n, batch=400)
    return run.finish("exploration", RULE, ["moduli are positive for the inverse; operands up to about 3000 bits",
                                            "Python's math.gcd, pow and math.isqrt are right"],
                      require=("sqrt/negative", "exp/negative exponent", "modexp/negative exponent"))
