import re
from vlib import mix
from vlib.engine import Case, mh
from vlib.ref import ec
from props import c06

RULE = ("The workloads of the integer, curve and public-key checks, judged by their references, executed on builds with digits of "
        "8, 16, 32 and 64 bits, allocation quanta 1, 2, 3, 8 and 16, each multiplier switched off, the small division, the binary "
        "inverse, binary and plain windowed point multiplication, the parameter checks compiled in (never to complain), the assembler multiply-accumulate (64 and 32 bits), builds with half of the curves, gcc and clang, -O0 to -O3 (with 16-bit digits also products beyond three digits per column); most of them under "
        "AddressSanitizer. Classes: the configurations, and the part each case comes from. Distinct by hash of all commands.")

INV, DIV, COMBA, KARA, TOOM = "CRY_MPI_INV_EUCLID", "CRY_MPI_DIV_SMALL", "CRY_MPI_MUL_COMBA", "CRY_MPI_MUL_KARATSUBA", "CRY_MPI_MUL_TOOM3"
BINPT = {"CRY_ECP_MUL_SLIDING_WIN": False, "CRY_ECP_MUL_WIN": False}
D8, D16, D32 = ("-DCRY_MPI_DIGIT_MAX=%dUL" % (2**b - 1) for b in (8, 16, 32))
CURVES = "SECP192R1 SECP224R1 SECP256R1 SECP384R1 SECP521R1 SECP192K1 SECP224K1 SECP256K1 BP256R1 BP384R1 BP512R1".split()
CONF = [
    # name, base, extra flags, configuration
    ("digit8", "rel", D8, None),
    ("digit8-asan", "asan", D8, None),
    ("digit8-alternatives", "asan", D8, dict(BINPT, **{INV: False, DIV: True})),
    ("digit8-comba-only", "rel", D8, {KARA: False, TOOM: False}),
    ("digit8-baseline-only", "rel", D8, {COMBA: False, KARA: False, TOOM: False}),
    ("debug-configuration", "asan", "", {"CRY_MPI_DEBUG_CONF": True}),
    ("digit16", "asan", D16, None),
    ("digit16-alternatives", "rel", D16, dict(BINPT, **{INV: False, DIV: True, COMBA: False})),
    ("digit16-O3", "rel", D16, None),
    ("digit32", "asan", D32, None),
    ("digit32-quantum3", "asan", "-DCRY_MPI_QUANTUM=3 " + D32, None),
    ("digit32-alternatives", "rel", D32, dict(BINPT, **{INV: False, DIV: True, TOOM: False})),
    ("quantum1", "asan", "-DCRY_MPI_QUANTUM=1", None),
    ("quantum2", "rel", "-DCRY_MPI_QUANTUM=2", None),
    ("quantum16", "asan", "-DCRY_MPI_QUANTUM=16", None),
    ("binary-inverse", "asan", "", {INV: False}),
    ("small-division", "asan", "", {DIV: True}),
    ("no-comba", "rel", "", {COMBA: False}),
    ("no-karatsuba", "asan", "", {KARA: False}),
    ("no-toom3", "rel", "", {TOOM: False}),
    ("baseline-only", "asan", "", {COMBA: False, KARA: False, TOOM: False}),
    ("binary-point-mul", "asan", "", BINPT),
    ("window-point-mul", "asan", "", {"CRY_ECP_MUL_SLIDING_WIN": False}),
    ("window-point-mul-digit8", "rel", D8, {"CRY_ECP_MUL_SLIDING_WIN": False}),
    ("window-point-mul-digit32", "rel", D32, {"CRY_ECP_MUL_SLIDING_WIN": False}),
    ("parameter-checks", "asan", "", {"CRY_ASSERT_CHECK": True}),
    ("small-size", "rel", "", {"CRY_SMALL_SIZE": True}),
    ("assembler", "rel", "", {"CRY_ARCH_X86_64": True}),
    ("assembler-O0", "dbg", "", {"CRY_ARCH_X86_64": True}),
    ("assembler-digit32", "rel", D32, {"CRY_ARCH_X86": True}),
    ("even-curves", "asan", "", {"CRY_ECP_GRP_%s_ENABLE" % n: False for n in CURVES[1::2]}),
    ("odd-curves", "rel", D8, {"CRY_ECP_GRP_%s_ENABLE" % n: False for n in CURVES[0::2]}),
    ("O0", "dbg", "", None),
    ("clang", "clang", "", None),
]
ONLY = "c01 c02 c03 c04 c05 c06 c14 c15 c16 c17 c18".split()


def digits(name, extra):
    m = re.search(r"DIGIT_MAX=(\d+)", extra)
    return (int(m.group(1)) + 1).bit_length() - 1 if m else 8 if name == "debug-configuration" else 64


def workload(rng, w, count, ctx):
    for c in mix.workload(rng, w, count, ctx):
        c.tags.append(ctx["conf"])
        yield c


def curves(rng, w, count, ctx):
    """Builds with some of the curves: those work, the others are refused."""
    for g in range(11):
        cv = ec.CURVES[g]
        on = g % 2 == ctx["rest"]
        c = Case(ctx["conf"], "curve compiled in" if on else "curve left out is refused")
        c.c("gload 0 %d" % g, (lambda o: None if o == "0" else "built-in curve %s refused" % o) if on else
            (lambda o: None if o != "0" else "a curve left out is loaded"))
        if on:
            k = rng.randrange(1, cv.n)
            c.c("ps 0 %x %x 1" % cv.g).c("ms 5 %x 0" % k).c("pmul 1 0 5 0", "0").c("pg 1", c06.isp(cv.mul(k, cv.g)))
        yield c


def columns(rng, w, count, ctx):
    """The column sums of products of more than 2^16 digits of 16 bits exceed three digits."""
    n = 65536 + (rng.randrange(3, 6) if rng.random() < 0.7 else rng.randrange(8, 80))
    v = (1 << (16 * n)) - 1 - (rng.getrandbits(64) if w > 1 else 0)
    c = Case("digit16-O3", "products beyond three digits per column")
    c.c("ms 0 %x 0" % v).c("ms 1 %x 0" % v)
    if w % 2:
        c.c("mul_comba 2 0 1")
    else:
        c.c("sqr_comba 2 0")
    c.c("mg 2", mh(v * v))
    yield c


def columns8(rng, w, count, ctx):
    """The same with digits of 8 bits, from 259 digits on; long columns of other digits."""
    b = ctx["dig"]
    for i in range(count):
        n = 256 + rng.choice((0, 1, 2, 3, 3, 3, 4, 5, 6, 7, 8, rng.randrange(100)))
        if b > 8 and rng.random() < 0.5:
            n += rng.randrange(900)
        m = n if rng.random() < 0.6 else n + rng.randrange(40)
        v = (1 << (b * n)) - 1 - (rng.getrandbits(16) if rng.random() < 0.2 else 0)
        u = (1 << (b * m)) - 1
        c = Case(ctx["conf"], "8-bit columns" if b == 8 else "long columns")
        c.c("ms 0 %x 0" % v).c("ms 1 %x 0" % u)
        c.c("mul_comba 2 0 1").c("mg 2", mh(v * u)).c("mul_comba 3 1 0").c("mg 3", mh(v * u))
        c.c("sqr_comba 4 0").c("mg 4", mh(v * v))
        c.c("sqr_comba 0 0").c("mg 0", mh(v * v))
        yield c


def check(run):
    q = run.tier == "quick"
    failed = {}
    run.tree.build_many(CONF, failed)
    for name, base, extra, conf in CONF:
        if name in failed:
            run.viol.append({"prop": run.prop, "variant": name, "kind": "build", "case": "", "threads": 1,
                             "what": "the configuration %s does not compile: %s" % (name, failed[name][-500:])})
    specs = []
    for part in range(3 if q else 8):
        for name, base, extra, conf in CONF:
            if name in failed:
                continue
            if name.endswith("-curves"):
                if part == 0:
                    specs.append((curves, [(name, run.tree.bins[name])], 11, {"conf": name, "rest": int(name[0] == "o")}, name))
                continue
            only = ONLY + ["c13"] if name == "parameter-checks" else ONLY
            specs.append((workload, [(name, run.tree.bins[name])], 25 if q else 250,
                          {"judge": True, "only": only, "dig": digits(name, extra), "conf": name}, "%s-%d" % (name, part)))
    specs[:0] = [(columns, [("digit16-O3", run.tree.bins["digit16-O3"])], 1, {"w": w}, "columns-%d" % w) for w in range(2)
                 if "digit16-O3" not in failed]
    specs += [(columns8, [(n, run.tree.bins[n])], 4 if q else 40, {"conf": n, "dig": digits(n, x)}, "columns8-" + n)
              for n, _, x, _ in CONF if n not in failed and n in ("digit8", "digit8-asan", "digit8-comba-only", "digit16", "digit32", "assembler",
                                                                  "assembler-O0", "assembler-digit32", "O0", "clang")]
    run.sweep_many(specs, cpu=90)
    return run.finish("exploration", RULE, ["the configurations listed are those the library supports on this platform"],
                      require=[c[0] for c in CONF] + [x.upper() for x in ONLY] + ["products beyond three digits per column", "curve left out is refused", "8-bit columns", "long columns"])
