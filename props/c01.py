from vlib.engine import Case, mh
from vlib.mpimodel import Prog, sgn, exp_sign, exp_fail
from vlib import gen

RULE = ("Random register programs (3-5 registers, 4-14 operations each, dirty destinations, aliasing, random "
        "fill of fresh memory): operands follow digit patterns (all-ones, powers of two, carry runs, values "
        "related to other registers) with sizes biased to digit borders, the Karatsuba/Toom-3 cut-offs and the "
        "integer constants found in the sources. Every destination is compared with exact integer arithmetic, and "
        "all registers again at the end. Distinct cases are distinct programs (hash of all commands).")

BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
       "add_abs": lambda a, b: abs(a) + abs(b), "mul_abs": lambda a, b: abs(a * b),
       "mul_base": lambda a, b: abs(a * b), "mul_comba": lambda a, b: abs(a * b),
       "mul_kara": lambda a, b: abs(a * b), "mul_toom": lambda a, b: abs(a * b)}
UN = {"abs": abs, "copy": lambda a: a, "sqr": lambda a: a * a, "sqr_base": lambda a: a * a,
      "sqr_comba": lambda a: a * a, "sqr_kara": lambda a: a * a}


def step(p, limit):
    rng = p.rng
    k = rng.random()
    r, a, b = p.reg(), p.reg(), p.reg()
    va, vb = p.v[a], p.v[b]
    if k < 0.50:
        op = rng.choice(("add", "add", "sub", "sub", "mul", "mul", "add_abs", "mul_abs", "mul_base",
                         "mul_comba", "mul_kara", "mul_toom"))
        val = BIN[op](va, vb)
        if val.bit_length() > limit:
            p.fresh(r)
            return
        p.case.tag("%s/%s/%s" % (op, p.szclass(va, vb), p.alias(r, a, b)),
                   "%s/sign%d%d" % (op, sgn(va), sgn(vb)))
        p.res("%s %d %d %d" % (op, r, a, b), r, val)
    elif k < 0.62:
        op = rng.choice(tuple(UN) + ("sqr",))
        val = UN[op](va)
        if val.bit_length() > limit:
            p.fresh(r)
            return
        p.case.tag("%s/%s/%s" % (op, p.szclass(va), p.alias(r, a)))
        p.res("%s %d %d" % (op, r, a), r, val)
    elif k < 0.70:
        op = "sub_abs"
        if abs(va) < abs(vb):
            t = 23                      # scratch register: its content after an error is unspecified
            p.case.tag("sub_abs/refused", "huge/operands beyond 65536 digits", "huge/product")
            p.case.c("sub_abs %d %d %d" % (t, a, b), exp_fail)
            return
        p.case.tag("sub_abs/%s/%s" % (p.szclass(va, vb), p.alias(r, a, b)))
        p.res("sub_abs %d %d %d" % (r, a, b), r, abs(va) - abs(vb))
    elif k < 0.80:
        n = rng.choice((0, 1, 7, 8, 31, 32, 63, 64, 65, 127, 128, 129, va.bit_length(), va.bit_length() + 1,
                        max(0, va.bit_length() - 1), rng.randrange(0, 700)))
        if rng.random() < 0.5:
            val = abs(va) << n
            if val.bit_length() > limit:
                return
            op = "shl"
        else:
            val, op = abs(va) >> n, "shr"
        if va < 0:
            val = -val
        p.case.tag("%s/%s/%s/%s" % (op, p.szclass(va), p.alias(r, a), "whole" if n % 64 == 0 else "part"))
        p.res("%s %d %d %d" % (op, r, a, n), r, val)
    elif k < 0.88:
        p.case.tag("cmp/%d" % sgn(va - vb), "cmp_abs/%d" % sgn(abs(va) - abs(vb)))
        p.case.c("cmp %d %d" % (a, b), exp_sign(sgn(va - vb)))
        p.case.c("cmp_abs %d %d" % (a, b), exp_sign(sgn(abs(va) - abs(vb))))
    elif k < 0.94:
        n = abs(va).bit_length()
        p.case.tag("bits/%d" % (n % 64))
        p.case.c("bits %d" % a, "%d,%d,%d,%d,%d,%d,%d" % (n, (n + 7) // 8, va == 0, va & 1, not va & 1,
                                                          va >= 0, va < 0))
    elif k < 0.97:
        db = p.dig
        d = rng.choice((0, 1, 2, 2**db - 1, 2**(db - 1), rng.getrandbits(db)))
        if (va * d).bit_length() > limit:
            return
        p.case.tag("mul_dig/%s" % p.alias(r, a))
        p.res("mul_dig %d %d %d" % (r, a, d), r, va * d)
    else:
        p.case.c("swap %d %d" % (a, b))
        p.v[a], p.v[b] = vb, va
        p.get(a)
        p.get(b)


def big(rng, w, i, ctx):
    """One product or square around the cut-offs of the multiplication algorithms."""
    hi = 64 * rng.choice((66, 70, 130, 200, 301, 310, 420, 640, 950 if ctx["tier"] == "quick" else 1900))
    p = Prog(rng, 3, hi, ctx["consts"])
    p.dig = ctx.get("dig", 64)
    c = p.case
    near = rng.random() < 0.5           # operands of about the same, large size
    for r in range(3):
        n = hi // 64 - rng.randrange(0, 6) if near else rng.choice((63, 64, 65, 66, 127, 128, 129, 130, 192, 193, 299, 300, 301, 302, 303, 304,
                        rng.randrange(1, hi // 64 + 1), hi // 64))
        n = max(1, min(n, hi // 64))
        v = gen.magnitude(rng, 64 * n - rng.choice((0, 0, 1, 63)))
        if rng.random() < 0.5:          # zero or all-ones thirds and halves
            part = rng.choice((n // 3, n // 2, (n + 1) // 2, 1)) * 64
            sh = rng.randrange(0, 3) * part
            m = ((1 << part) - 1) << sh
            v = v | m if rng.random() < 0.5 else v & ~m
        p.set(r, -v if rng.random() < 0.3 else v)
    op = rng.choice(("mul", "mul", "mul_abs", "mul_kara", "mul_toom", "sqr", "sqr_kara", "mul_comba", "sqr_comba",
                     "mul_base", "sqr_base"))
    r, a, b = p.reg(), p.reg(), p.reg()
    if op in UN:
        c.tag("big/%s/%s/%s" % (op, p.szclass(p.v[a]), p.alias(r, a)))
        p.res("%s %d %d" % (op, r, a), r, UN[op](p.v[a]))
    else:
        c.tag("big/%s/%s/%s" % (op, p.szclass(p.v[a], p.v[b]), p.alias(r, a, b)))
        p.res("%s %d %d %d" % (op, r, a, b), r, BIN[op](p.v[a], p.v[b]))
    if p.szclass(*[v for v in p.v]) == 'd>300':
        c.tag('big/all operands > 300 digits')
    p.all()
    return c


def huge(rng, w, count, ctx):
    """Operands of more than 2^16 digits."""
    D = 64 * 65536
    for i in range(ctx["n"]):
        p = Prog(rng, 3, D, ctx["consts"])
        c = p.case
        for r in (0, 1):
            n = D + rng.choice((-1, 0, 1, 64, 65, 64 * rng.randrange(1, 900), -64 * rng.randrange(1, 900)))
            v = rng.getrandbits(n) | 1 << (n - 1)
            k = rng.random()
            if k < 0.25:
                v = (1 << n) - 1 - (rng.getrandbits(60) if k < 0.12 else 0)
            elif k < 0.4:
                v = 1 << (n - 1)
            p.set(r, -v if rng.random() < 0.3 else v)
        a, b = p.v[0], p.v[1]
        s = rng.choice((1, 63, 64, 65, 64 * rng.randrange(1, 99), D - 1, D, D + 7, 64 * 65535, 1 << 20))
        d = rng.getrandbits(64)
        for op, r in (("add 2 0 1", a + b), ("sub 2 0 1", a - b), ("mul_dig 2 0 %d" % d, a * d), ("copy 2 0", a),
                      ("shl 2 0 %d" % s, sgn(a) * (abs(a) << s)), ("shr 2 1 %d" % s, sgn(b) * (abs(b) >> s))):
            p.res(op, 2, r)
        n = abs(a).bit_length()
        c.c("bits 0", "%d,%d,0,%d,%d,%d,%d" % (n, (n + 7) // 8, a & 1, not a & 1, a >= 0, a < 0))
        c.c("cmp 0 1", exp_sign(sgn(a - b))).c("cmp_abs 0 1", exp_sign(sgn(abs(a) - abs(b))))
        small = rng.getrandbits(64 * rng.choice((1, 2, 30, 70, 301)))
        p.set(1, small)
        p.res("mul %d 0 1" % (1 if i % 2 else 2), 1 if i % 2 else 2, a * small)
        c.tag("huge/operands beyond 65536 digits")
        yield c
    if w < ctx["prods"]:
        p = Prog(rng, 2, D, ctx["consts"])
        v = rng.getrandbits(D + 64 * rng.randrange(1, 300))
        p.set(0, v)
        p.res("sqr 1 0" if w % 2 else "mul 1 0 0", 1, v * v)
        p.case.tag("huge/product")
        yield p.case


def cases(rng, w, count, ctx):
    for i in range(count):
        if i % 6 == 5:
            yield big(rng, w, i, ctx)
            continue
        maxbits = rng.choice((64, 128, 300, 600, 1200, 4600, 9000))
        p = Prog(rng, rng.randrange(3, 6), maxbits, ctx["consts"])
        p.dig = ctx.get("dig", 64)
        for r in range(p.n):
            p.fresh(r)
        for _ in range(rng.randrange(4, 15)):
            step(p, 2 * maxbits + 200)
        p.all()
        yield p.case


def check(run):
    n = 8000 if run.tier == "quick" else 40000
    run.sweep(cases, run.bins("asan", "rel"), n)
    q = run.tier == "quick"
    run.sweep(huge, run.bins("rel"), 0, cpu=120, batch=4, ctx={"n": 3 if q else 20, "prods": 2 if q else 8}, label="huge")
    return run.finish("exploration", RULE, ["operands up to about 1000 digits (64000 bits) densely, a few beyond 65536 digits",
                                            "the Python integer arithmetic used as reference is right"],
                      require=("big/all operands > 300 digits", "sub_abs/refused"))
