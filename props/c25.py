import random
from vlib.engine import Case, hx, mh, run_driver, HarnessError
from vlib import gen, sigs
from vlib.ref import num, ec
from props import c14, c15, c16, c17

RULE = ("Scenarios over every operation that allocates (integers incl. all multipliers, curve points, RSA, DSA, ECDSA, "
        "ElGamal, DH, ECDH, in-place CBC, overlapping XOR, every initialiser). A first run counts the allocations of the "
        "operation; then it is repeated with each single one failing and with all from each one on failing (all positions "
        "up to a limit per scenario, beyond it the first and last pass of pairs of nested call sites above allocations, "
        "both ends and a sample), on the default and the alternative algorithms, 64- and 8-bit digits. After each faulted run: error or correct result, "
        "operands and keys unchanged, destinations re-used as destinations of other operations, the operation repeated "
        "without faults must be right, no leak, no sanitizer report, no hang. Evaluations count faulted runs; distinct by "
        "hash of all commands.")

ERR = lambda o: o[:1] == "-"


def neutral(o):
    f = o.split(",")
    h = f[:len(f) % 3]
    f = f[len(f) % 3:]
    return h + [f[i:i + 3] if f[i + 2] != "0" else ["O"] for i in range(0, len(f), 3)]


class Scen:
    def __init__(self, name, setup, op, reads=(), keep=(), mdest=(), pdest=(), good=None, again=None, known=None, err=ERR):
        self.name, self.setup, self.op = name, list(setup), op
        self.reads, self.keep = list(reads), list(keep)
        self.mdest, self.pdest = list(mdest), list(pdest)
        self.good, self.again, self.known, self.err = good, again, known, err
        self.base = None

    def probe(self):
        return "c0 " + " ; ".join(self.setup + ["sites", "fail -1 0", self.op, "sitelist", "failoff"] + self.reads + self.keep)

    def learn(self, outs):
        k = len(self.setup) + 2
        self.out = outs[k]
        k += 1
        self.sites = [tuple(map(int, t.split(":"))) for t in outs[k].split(",")] if outs[k] != "-" else []
        self.count = int(outs[k + 1].split(",")[0])
        self.rv = outs[k + 2:k + 2 + len(self.reads)]
        self.kv = outs[k + 2 + len(self.reads):]
        if self.good and not self.err(self.out) and self.good(self.out, self.rv):
            return False                # wrong without any fault: the business of other properties
        return len(self.kv) == len(self.keep)

    def right(self, o, rv):
        if self.good:
            return None if self.err(self.out) else self.good(o, rv)
        if self.name.startswith("ecp"):
            # a point with z = 0 is the neutral element whatever its other coordinates
            o, rv = neutral(o), [neutral(v) for v in rv]
            if (o, rv) == (neutral(self.out), [neutral(v) for v in self.rv]):
                return None
        if o != self.out:
            return "result %s instead of %s" % (o[:80], self.out[:80])
        if rv != self.rv:
            return "value %s instead of %s" % (str(rv)[:120], str(self.rv)[:120])
        return None

    def faulted(self, n, al):
        c = Case(self.name, "all later fail" if al else "one fails")
        c.known = self.known
        for s in self.setup:
            c.c(s)
        c.c("fail %d %d" % (n, al)).c(self.op).c("failoff")
        a = len(c.cmds)
        for s in self.reads + self.keep:
            c.c(s)
        b = len(c.cmds)
        for r in self.mdest:
            c.c("mg %d" % r)
        for r in self.pdest:
            c.c("pg %d" % r)
        d = len(c.cmds)
        for r in self.mdest:
            c.c("copy %d 23" % r).c("mg %d" % r)
        for r in self.pdest:
            c.c("pcopy %d 7" % r).c("pg %d" % r)
        if self.mdest:
            c.cmds.insert(0, "ms 23 %s 0" % BIG)
            c.exps.insert(0, None)
            a, b, d = a + 1, b + 1, d + 1
        if self.pdest:
            c.cmds.insert(0, "ps 7 %s 5 1" % BIG)
            c.exps.insert(0, None)
            a, b, d = a + 1, b + 1, d + 1
        e = len(c.cmds)
        for s in (self.setup if self.again is None else self.again):
            c.c(s)
        f = len(c.cmds)
        c.c(self.op)
        for s in self.reads:
            c.c(s)
        c.final = Judge(self, a, b, d, e, f)
        return c


class Judge:
    def __init__(self, s, *at):
        self.s, self.at = s, at

    def __call__(self, o):
        s = self.s
        a, b, d, e, f = self.at
        op, fo = o[a - 2], o[a - 1].split(",")
        if fo[1] == "0":
            return None                 # the position was not reached: nothing was refused
        rv = o[a:a + len(s.reads)]
        if not s.err(op):
            w = s.right(op, rv)
            if w:
                return "reported success after a failed allocation: " + w
        if o[a + len(s.reads):b] != s.kv:
            return "operand or key changed: %s" % o[a + len(s.reads):b]
        for x in o[b:d]:
            for y in x.split(","):
                if y.startswith(("!null", "!used", "!sign")):
                    return "object unusable after the failure: " + x
        for x in range(d, e, 2):
            if o[x] != "0" or not o[x + 1].split(",")[0] == BIG:
                return "destination cannot be used again: %s %s" % (o[x], o[x + 1][:60])
        w = s.right(o[f], o[f + 1:f + 1 + len(s.reads)])
        if w or (s.err(o[f]) != s.err(s.out)):
            return "repeated without fault: %s" % (w or o[f])
        return None


BIG = "abcdef0123456789" * 40


def val(rng, bits, neg=True):
    v = rng.getrandbits(bits) | 1 << (bits - 1)
    return mh(-v if neg and rng.random() < 0.3 else v)


def mpi3(rng):
    op = rng.choice("add sub mul mul_base mul_comba mul_kara mul_toom gcd lcm inv mod add_abs sub_abs exp mul_abs mul".split())
    bits = rng.choice((1, 40, 64, 128, 500, 1100, 2000))
    if op in ("mul", "mul_kara", "mul_toom", "mul_abs") and rng.random() < 0.5:
        bits = rng.choice((4300, 4300, 5000, 9000) + ((20500,) if rng.random() < 0.1 else ()))
    if op in ("gcd", "lcm", "inv"):
        bits = rng.choice((min(bits, 300), 300, 700))
    b2 = rng.choice((bits, bits, max(1, bits // 2), bits + 70))
    r, a, b = rng.choice(((0, 1, 2), (1, 1, 2), (2, 1, 2), (0, 1, 1), (1, 1, 1)))
    va, vb = val(rng, bits), val(rng, b2)
    if op == "exp":
        va, vb = val(rng, rng.choice((3, 64, 200))), mh(rng.randrange(0, 40))
        if a == b:
            va = mh(rng.randrange(2, 90))
    if op == "inv":
        vb = mh(rng.getrandbits(b2) | 1 << (b2 - 1) | 1)
    if op == "sub_abs":
        x, y = int(va, 16), int(vb, 16)
        if abs(x) < abs(y):
            va, vb = vb, va
    sl = rng.choice((0, 0, 1, 3))
    setup = ["ms 0 %s 0" % val(rng, 70), "ms 1 %s %d" % (va, sl), "ms 2 %s %d" % (vb, rng.choice((0, 2)))]
    return Scen("mpi " + op, setup, "%s %d %d %d" % (op, r, a, b), ["mg %d" % r],
                ["mg %d" % k for k in (1, 2) if k != r], [r])


def mpi2(rng):
    op = rng.choice("abs sqr sqr_base sqr_comba sqr_kara sqrt copy".split())
    bits = rng.choice((1, 64, 200, 600, 1500) + ((4300, 9000) if op in ("sqr", "sqr_kara") else ()))
    if op == "sqrt":
        bits = min(bits, 900)
    r, a = rng.choice(((0, 1), (1, 1)))
    setup = ["ms 0 %s 0" % val(rng, 70), "ms 1 %s 0" % val(rng, bits, op != "sqrt")]
    return Scen("mpi " + op, setup, "%s %d %d" % (op, r, a), ["mg %d" % r], ["mg 1"] if r == 0 else [], [r])


def mpidiv(rng):
    op = rng.choice(("div", "div_abs", "div"))
    bits = rng.choice((60, 128, 700, 2500))
    b2 = rng.choice((bits // 2, bits - 3, 64, 65, 20, bits + 5))
    q, r, a, b = rng.choice(((0, 1, 2, 3), ("n", 1, 2, 3), (0, "n", 2, 3), (2, 3, 2, 3), (3, 2, 2, 3), (2, 1, 2, 3), (0, 2, 2, 3), (0, 1, 2, 2)))
    setup = ["ms 0 5 0", "ms 1 -7 0", "ms 2 %s 0" % val(rng, bits), "ms 3 %s 0" % val(rng, b2)]
    out = [k for k in (q, r) if k != "n"]
    return Scen("mpi " + op, setup, "%s %s %s %d %d" % (op, q, r, a, b), ["mg %d" % k for k in out],
                ["mg %d" % k for k in (2, 3) if k not in out], out)


def mpimisc(rng):
    k = rng.randrange(17)
    bits = rng.choice((10, 64, 130, 800, 2000))
    s0 = ["ms 0 %s 0" % val(rng, 70), "ms 1 %s 0" % val(rng, bits), "ms 2 %s 0" % val(rng, 90, False)]
    if k == 0:
        r = rng.randrange(2)
        return Scen("mpi shl", s0, "shl %d 1 %d" % (r, rng.choice((1, 63, 64, 700))), ["mg %d" % r], ["mg 1"][:1 - r], [r])
    if k == 1:
        r = rng.randrange(2)
        return Scen("mpi shr", s0, "shr %d 1 %d" % (r, rng.choice((1, 63, 64, 700))), ["mg %d" % r], ["mg 1"][:1 - r], [r])
    if k in (2, 3):
        b = rng.choice((64, 65, 130, 256))
        m = val(rng, b, False)
        if rng.random() < 0.5:
            m = mh(int(m, 16) | 1)
        e = val(rng, rng.choice((5, 20, 64)), False)
        r = rng.choice((0, 1, 2, 3))
        st = ["ms 0 9 0", "ms 1 %s 0" % val(rng, b + 30), "ms 2 %s 0" % e, "ms 3 %s 0" % m]
        return Scen("mpi mod_exp", st, "modexp %d 1 2 3" % r, ["mg %d" % r], ["mg %d" % i for i in (1, 2, 3) if i != r], [r])
    if k == 4:
        r = rng.randrange(2)
        return Scen("mpi mul_dig", s0, "mul_dig %d 1 %d" % (r, rng.getrandbits(64)), ["mg %d" % r], ["mg 1"][:1 - r], [r])
    if k == 5:
        return Scen("mpi set_int", ["minit 0 size 0"], "seti 0 %d" % rng.choice((0, 1, -5, 2**62)), ["mg 0"], [], [0])
    if k == 6:
        return Scen("mpi load_bin", s0, "lbin 0 %s" % hx(rng.randbytes(rng.choice((0, 1, 8, 9, 200)))), ["mg 0"], [], [0])
    if k == 7:
        rx = rng.choice((2, 8, 10, 16, 36))
        t = "".join(rng.choice("0123456789abcdefghijklmnopqrstuvwxyz"[:rx]) for _ in range(rng.choice((1, 20, 90))))
        return Scen("mpi load_str", s0, "lstr 0 %d %s" % (rx, hx(t.encode())), ["mg 0"], [], [0])
    if k == 8:
        return Scen("mpi store_str", s0, "sstr 1 %d %d" % (rng.choice((2, 8, 10, 16)), bits + 3), [], ["mg 1"])
    if k == 9:
        return Scen("mpi store_bin", s0, "sbin 1 %d 1" % (bits // 8 + 3), [], ["mg 1"])
    if k == 10:
        b = rng.choice((1, 7, 64, 65, 200))
        return Scen("mpi rand", s0 + ["seed 00112233"], "rand 0 %d" % b, ["mg 0"], [], [0],
                    good=lambda o, rv: None if int(rv[0], 16).bit_length() == b else "length")
    if k == 11:
        return Scen("mpi rand_range", s0 + ["seed 00112233"], "rrange 0 2", ["mg 0", "mg 2"], ["mg 2"], [0],
                    good=lambda o, rv: None if 0 <= int(rv[0], 16) < int(rv[1], 16) else "range")
    if k == 12:
        p = num.prime(rng, rng.choice((2, 8, 20, 64, 130))) if rng.random() < 0.6 else rng.getrandbits(40) | 1
        if rng.random() < 0.3:
            p = num.prime(rng, 30) * num.prime(rng, 30)
        return Scen("mpi is_prime", ["seed 0011", "ms 0 %s 0" % mh(p)], "isprime 0", [], ["mg 0"])
    if k == 13:
        b = rng.choice((16, 32, 64, 72))
        return Scen("mpi prime", ["seed %s" % rng.randbytes(8).hex(), "ms 0 3 0"], "prime 0 %d n" % b, ["mg 0"], [], [0],
                    good=lambda o, rv: None if int(rv[0], 16).bit_length() == b and num.is_prime(int(rv[0], 16)) else "not such a prime")
    if k == 14:
        kind = rng.choice(("plain", "size 9", "int -77", "bin " + hx(rng.randbytes(30)), "str 16 " + hx(b"abcdef0123456789abcdef"), "copy 1"))
        return Scen("mpi init " + kind.split()[0], s0[1:], "minit 0 " + kind, [], ["mg 1"], again=s0[1:])
    if k == 15:
        return Scen("mpi init_list", [], "mlist")
    return Scen("mpi print", s0, "print 1 16", [], ["mg 1"], err=lambda o: o == "-")


def point(rng, cv):
    P = cv.mul(rng.randrange(1, cv.n), cv.g)
    return "%x %x 1" % P


def ecps(rng):
    k = rng.randrange(8)
    cv = ec.CURVES[rng.choice((0, 5, 2))] if rng.random() < 0.04 else ec.small_prime_order(rng)[0]
    g = "gset 0 %x %x %x %x %x %x" % (cv.p, cv.a, cv.b, cv.g[0], cv.g[1], cv.n)
    a, b = point(rng, cv), point(rng, cv)
    if rng.random() < 0.2:
        b = rng.choice((a, "0 0 0", "%x %x 1" % cv.neg(tuple(int(v, 16) for v in a.split()[:2]))))
    st = [g, "ps 0 1 2 1", "ps 1 " + a, "ps 2 " + b]
    if k == 0:
        return Scen("ecp load", [], "gload 0 %d" % rng.randrange(11), [], [])
    if k == 1:
        return Scen("ecp init", [], "pinit 0 %d %d" % (rng.choice((3, 99, 300, 2**40, 2**62)), rng.choice((-4, 7, 2**62, -70000))), [], [])
    if k == 2:
        return Scen("ecp init_list", [], "plist")
    if k == 3:
        return Scen("ecp copy", st, "pcopy 0 1", ["pg 0"], ["pg 1"], pdest=[0])
    r = rng.choice((0, 1, 2))
    if k == 4:
        return Scen("ecp add", st, "padd %d 1 2 0" % r, ["pg %d" % r], ["pg %d" % i for i in (1, 2) if i != r] + ["gg 0"], pdest=[r])
    if k == 5:
        r = r % 2
        return Scen("ecp dbl", st, "pdbl %d 1 0" % r, ["pg %d" % r], (["pg 1"] if r == 0 else []) + ["gg 0"], pdest=[r])
    r = r % 2
    kk = rng.choice((0, 1, 2, cv.n - 1, cv.n, rng.randrange(cv.n), rng.randrange(cv.n)))
    if cv.p > 1 << 64:
        kk = rng.randrange(200)
    return Scen("ecp mul", st + ["ms 5 %s 0" % mh(kk)], "pmul %d 1 5 0" % r, ["pg %d" % r],
                (["pg 1"] if r == 0 else []) + ["mg 5", "gg 0"], pdest=[r])


def cmds(f, *a, **k):
    c = Case()
    f(c, *a, **k)
    return c.cmds


def rsas(rng):
    key = n, e, d = c14.key(rng, None, rng.choice((96, 104, 128, 160)))
    m = c14.size(n)
    pad = rng.randrange(2)
    x = gen.data_bytes(rng, rng.choice((0, 1, m - 11, m - 10, m, 2 * m + 1)) if pad else m * rng.choice((0, 1, 2)))
    if not pad:
        x = bytes(b & 0x3f if i % m == 0 else b for i, b in enumerate(x))
        x = bytes(0 if i % m == 0 else b for i, b in enumerate(x))
    seed = "seed %s" % rng.randbytes(8).hex()
    st = [seed] + cmds(c14.load, 0, key, pad)
    keep = ["kget 0"]
    k = rng.randrange(7)
    ag = [seed]
    unit = m - 11 if pad else m
    if pad:
        raw = [b"\0\1" + b"\xff" * (m - 3 - len(p)) + b"\0" + p for p in ([x[i:i + unit] for i in range(0, len(x), unit)] or [b""])]
        enc = [b"\0\2" + bytes(rng.randrange(1, 256) for _ in range(m - 3 - len(p))) + b"\0" + p
               for p in ([x[i:i + unit] for i in range(0, len(x), unit)] or [b""])]
    else:
        raw = enc = c14.blocks(n, c14.padded_to(x, m))
    sig = b"".join(pow(int.from_bytes(b, "big"), d, n).to_bytes(m, "big") for b in raw)
    ct = b"".join(pow(int.from_bytes(b, "big"), e, n).to_bytes(m, "big") for b in enc)
    if k == 0:
        def good(o, rv):
            t = bytes.fromhex(o.split(",")[2].replace("-", ""))
            p = c14.open_all(n, t, d, False, pad)
            return None if p == (x if pad else c14.padded_to(x, m)) else "ciphertext"
        return Scen("rsa encrypt", st, "renc 0 %s" % hx(x), [], keep, good=good, again=ag)
    if k == 1:
        return Scen("rsa decrypt", st, "rdec 0 %s" % hx(ct), [], keep, again=ag)
    if k == 2:
        bad = bytearray(ct)
        bad[-1] ^= 1
        return Scen("rsa decrypt altered", st, "rdec 0 %s" % hx(bytes(bad)), [], keep, again=ag)
    if k == 3:
        return Scen("rsa sign", st, "rsig 0 %s" % hx(x), [], keep, again=ag)
    if k == 4:
        return Scen("rsa verify", st, "rver 0 %s %s" % (hx(sig), hx(x)), [], keep, again=ag)
    if k == 5:
        return Scen("rsa verify altered", st, "rver 0 %s %s" % (hx(sig), hx(x + b"\1")), [], keep, again=ag)
    if rng.random() < 0.5:
        return Scen("rsa init", [], "kinit 0 rsa 1")

    def good(o, rv):
        n, e, d, p, q = (int(v, 16) for v in rv[0].split(","))
        ok = p * q == n and p != q and n.bit_length() == 32 and num.is_prime(p) and num.is_prime(q) and e * d % ((p - 1) * (q - 1)) == 1
        return None if ok else "generated key is wrong"
    return Scen("rsa keygen", [seed, "kinit 0 rsa 1"], "kgen 0 32 0", ["kget 0"], [], good=good, again=ag)


def signer(rng):
    kind = rng.choice(("dsa", "ecdsa", "elg", "elgb"))
    seed = "seed %s" % rng.randbytes(8).hex()
    k = rng.randrange(4)
    if rng.random() < 0.1:
        return Scen(kind[:3] + " init", [], "kinit 0 %s" % {"dsa": "dsa 0", "ecdsa": "ecdsa %d" % rng.choice((-1, 0, 2)), "elg": "elg 0", "elgb": "elg 0"}[kind])
    if kind == "dsa":
        par = p, q, g = c15.params(rng, rng.choice((16, 33, 64)), 100)
        x = rng.randrange(1, q)
        y = pow(g, x, p)
        m = sigs.message(rng, q)
        z = sigs.digest(q, m)
        ok = lambda r, s: c15.valid(par, y, z, r, s)
        st = cmds(c15.load, 0, par, x, y)
        r, s = c15.made(par, x, z, rng.randrange(1, q))
    elif kind == "ecdsa":
        cv = ec.small_prime_order(rng, 300, 400)[0]
        d = rng.randrange(1, cv.n)
        Q = cv.mul(d, cv.g)
        m = sigs.message(rng, cv.n)
        z = sigs.digest(cv.n, m)
        ok = lambda r, s: c16.valid(cv, Q, z, r, s)
        st = cmds(c16.load, 0, cv, None, d, Q)
        r, s = c16.made(cv, d, z, rng.randrange(1, cv.n))
        if rng.random() < 0.2:
            def kg(o, rv):
                f = [int(v, 16) for v in rv[0].split(",")]
                return None if 0 < f[0] < cv.n and tuple(f[1:3]) == cv.mul(f[0], cv.g) else "generated key is wrong"
            return Scen("ecdsa keygen", [seed] + st, "kgen 0 0 0", ["kget 0"], [], good=kg, again=[seed])
    else:
        p = c17.prime(rng, rng.choice((20, 64, 80)))
        g, d = rng.randrange(2, p), rng.randrange(1, p - 1)
        key = p, g, pow(g, d, p)
        m = c17.message(rng, p)
        z = int.from_bytes(m, "big")
        ok = lambda r, s: c17.valid(key, z, r, s)
        st = cmds(c17.load, 0, key, d)
        while True:
            t = rng.randrange(1, p - 1)
            if num.is_prime(t) and (p - 1) % t:
                break
        r, s = c17.made(p, g, d, z, t)
    st = [seed] + st
    if k < 2:
        if kind == "elgb":
            nb = (p.bit_length() + 7) // 8

            def good(o, rv):
                b = bytes.fromhex(o.split(",")[1])
                return None if ok(int.from_bytes(b[:nb], "big"), int.from_bytes(b[nb:], "big")) else "invalid signature"
            return Scen("elg sign bytes", st, "esign 0 %s %d" % (hx(m), 2 * nb), [], ["kget 0"], good=good, again=[seed])

        def good(o, rv):
            f = o.split(",")
            return None if ok(int(f[1], 16), int(f[2], 16)) else "invalid signature"
        return Scen(kind + " sign", st, "sign 0 %s" % hx(m), [], ["kget 0"], good=good, again=[seed])
    bad = k == 3
    t = m if not bad else (m[:-1] + bytes([m[-1] ^ 1]) if m and rng.random() < 0.5 else m)
    if bad and t == m:
        s = s ^ 1
    if kind == "elgb":
        nb = (p.bit_length() + 7) // 8
        return Scen("elg verify bytes", st, "ever 0 %s %s" % (hx(r.to_bytes(nb, "big") + s.to_bytes(nb, "big")), hx(t)), [], ["kget 0"], again=[])
    return Scen("%s verify%s" % (kind, " altered" if bad else ""), st, "ver 0 %s %s %s" % (mh(r), mh(s), hx(t)), [], ["kget 0"], again=[])


def agree(rng):
    k = rng.randrange(6)
    if k == 0:
        return Scen("dh init", [], "kinit 0 dh 0")
    if k == 1:
        return Scen("ecdh init", [], "kinit 0 ecdh 0")
    if k < 4:
        p = c17.prime(rng, rng.choice((20, 64, 128)))
        st = ["kinit 0 dh 0", "kset 0 p %s" % mh(p), "kset 0 g %s" % mh(rng.randrange(2, p)), "kset 0 e %s" % mh(rng.randrange(1, p))]
        if k == 2:
            return Scen("dh agree", st, "agree 0", ["kget 0"])
        st.append("settok 0 %s" % hx(rng.randrange(1, p).to_bytes((p.bit_length() + 7) // 8, "big")))
        if rng.random() < 0.3:
            return Scen("dh token", st[:-1], "settok 0 %s" % hx(rng.randbytes(rng.choice((8, 70)))), ["kget 0"])
        return Scen("dh finalize", st, "final 0", ["kget 0"])
    cv = ec.small_prime_order(rng)[0]
    st = ["kinit 0 ecdh 0"] + ["kset 0 %s %x" % (f, v) for f, v in (("p", cv.p), ("a", cv.a), ("b", cv.b), ("gx", cv.g[0]), ("gy", cv.g[1]),
                                                                     ("gz", 1), ("n", cv.n), ("d", rng.randrange(1, cv.n)))]
    if k == 4:
        return Scen("ecdh agree", st, "agree 0", ["kget 0"])
    Q = cv.mul(rng.randrange(1, cv.n), cv.g)
    return Scen("ecdh final", st + ["kset 0 qx %x" % Q[0], "kset 0 qy %x" % Q[1], "kset 0 qz 1"], "final 0", ["kget 0"])


def others(rng):
    if rng.random() < 0.5:
        n = rng.choice((16, 32, 496, 512, 528, 1024, 1600))
        ciph, kl, b = rng.choice((("aes", 16, 16), ("des", 8, 8), ("des", 24, 8)))
        st = ["ci 0 cbc %s" % ciph, "ck 0 %s" % hx(rng.randbytes(kl)), "civ 0 %s" % hx(rng.randbytes(b))]
        return Scen("cbc in place", st, "di 0 %s" % hx(rng.randbytes(n)), [], [])
    n = rng.randrange(1, 12)
    area = rng.randbytes(3 * n + 8)
    if rng.random() < 0.5 and n > 2:
        a = rng.randrange(8)
        b = a + rng.randrange(2, n)
        d = rng.randrange(a + 1, b)
        a, b = rng.sample((a, b), 2)
    else:
        d, a, b = (rng.randrange(2 * n + 8) for _ in range(3))
    lo, hi = min(a, b), max(a, b)
    over = lo < d < hi and hi - lo <= n
    s = Scen("xor2 %s" % ("all overlap" if over else "other"), [], "xor2 %s %d %d %d %d" % (hx(area), d, a, b, n),
             known="memxor2-oom" if over else None)
    return s


MAKERS = [(mpi3, 10), (mpi2, 4), (mpidiv, 4), (mpimisc, 10), (ecps, 8), (rsas, 7), (signer, 8), (agree, 4), (others, 3)]


def positions(rng, s, limit):
    """Every allocation, or the last and first pass of every pair of nested call sites, both ends and a sample."""
    n = s.count
    if n <= limit:
        return list(range(n))
    must = list({k for t in s.sites for k in t})
    rng.shuffle(must)               # half of them here: the other workers take other halves
    must = must[:max(limit, len(must) // 2)]
    s.must = len(must)
    out = must + list(range(limit // 4)) + list(range(n - limit // 4, n)) + [rng.randrange(n) for _ in range(limit // 2)]
    return list(dict.fromkeys(out))


def cases(rng, w, count, ctx):
    scens = []
    for f, k in MAKERS:
        for _ in range(max(1, k * count // 10)):
            scens.append(f(rng))
    rng.shuffle(scens)
    recs, start, fails = [], 0, 0
    while start < len(scens):
        outs, rc, err = run_driver(ctx["probe"], [s.probe() for s in scens[start:]], ctx["wd"], "probe%d" % w, 20)
        if rc == 3:
            raise HarnessError("probe: " + err[-300:])
        recs += list(zip(scens[start:], outs))
        start += len(outs) + 1          # an operation that fails without a fault is left to the other checks
        fails += rc != 0
        if fails > 10:
            break
    ok = []
    for s, o in recs:
        o = o.partition(" ")[2].split(" | ")
        if o and o[-1].startswith("!leak"):
            o.pop()                     # leaks without any fault: judged in the faulted runs as well
        if len(o) == len(s.setup) + 5 + len(s.reads) + len(s.keep) and s.learn(o):
            ok.append(s)
    # every kind of scenario gets the same budget of faulted runs
    kinds = {}
    for s in ok:
        kinds.setdefault(s.name, []).append(s)
    for name in sorted(kinds):
        if not any(s.count for s in kinds[name]):
            yield kinds[name][0].faulted(0, 1)      # allocates nothing: there is nothing to refuse
        left, stacks = ctx["budget"], 0
        for s in kinds[name]:
            if s.count > ctx["limit"]:
                stacks = max(stacks, len(s.sites))
            for i, n in enumerate(positions(rng, s, ctx["limit"])):
                for al in (0, 1):
                    if al and (n == s.count - 1 or s.count > ctx["limit"] and i % 4):
                        continue
                    left -= 1
                    yield s.faulted(n, al)
                if left <= 0 and s.count > ctx["limit"] and i >= s.must:
                    break
            if left <= 0:
                break
        if stacks:
            tagged = kinds[name][0].faulted(0, 1)
            yield tagged.tag("%s: %s pairs of nested call sites above allocations" % (name, stacks if stacks < 10 else "%d0-%d9" % (stacks // 10, stacks // 10)))


# the alternative algorithms, on digits of eight bits
ALT = {"CRY_MPI_INV_EUCLID": False, "CRY_MPI_DIV_SMALL": True, "CRY_ECP_MUL_SLIDING_WIN": False}
D8 = "-DCRY_MPI_DIGIT_MAX=255UL -DCRY_MPI_QUANTUM=1"


def check(run):
    q = run.tier == "quick"
    ctx = {"probe": run.bins("rel")[0][1], "wd": run.tree.dir, "limit": 40 if q else 400, "budget": 80 if q else 600}
    run.sweep(cases, run.bins("asanfill"), 60 if q else 500, cpu=60, ctx=ctx, batch=400)
    # objects that grow by one digit at a time: the internal temporaries of every operation allocate
    failed = {}
    run.tree.build_many([("rel-q1", "rel", "-DCRY_MPI_QUANTUM=1", None), ("asanfill-q1", "asanfill", "-DCRY_MPI_QUANTUM=1", None),
                         ("rel-d8", "rel", "-DCRY_MPI_DEBUG_CONF", None), ("asanfill-d8", "asanfill", "-DCRY_MPI_DEBUG_CONF", None),
                         ("rel-a8", "rel", D8, ALT), ("asanfill-a8", "asanfill", D8, ALT)], failed)
    # digits of eight bits: even small values take several digits
    for v, n, budget in ("q1", 60 if q else 500, 80 if q else 600), ("d8", 40 if q else 300, 50 if q else 400), ("a8", 30 if q else 300, 30 if q else 400):
        if failed.get("rel-" + v) or failed.get("asanfill-" + v):
            run.notes.setdefault("builds_left_out", []).append(v)      # reported by C28
            continue
        run.sweep(cases, run.bins("asanfill-" + v), n, cpu=60, ctx=dict(ctx, probe=run.tree.bins["rel-" + v], budget=budget), batch=400, label=v)
    run.sweep(cases, run.bins("msan"), 30 if q else 300, cpu=60, ctx=dict(ctx, budget=30 if q else 300), batch=400, label="msan")
    names = ["mpi " + x for x in "add sub mul mul_base mul_comba mul_kara mul_toom gcd lcm inv mod exp sqr sqr_kara sqrt div div_abs shl mod_exp "
             "mul_dig set_int load_bin load_str store_str rand rand_range is_prime prime init_list print".split()]
    names += ["ecp " + x for x in "init init_list add dbl mul copy".split()]
    names += ["rsa encrypt", "rsa decrypt", "rsa sign", "rsa verify", "rsa keygen", "rsa init", "dsa sign", "dsa verify", "ecdsa sign",
              "ecdsa verify", "ecdsa keygen", "elg sign", "elg verify", "elg sign bytes", "dh agree", "dh finalize", "dh init",
              "ecdh agree", "ecdh final", "ecdh init", "cbc in place", "xor2 all overlap"]
    return run.finish("fault_enumeration", RULE, ["an allocation that is refused returns a null pointer and leaves existing blocks as they were"],
                      require=names)
