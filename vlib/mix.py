"""The workloads of all functional checks, mixed, for the monitors that watch every part at once."""
import importlib, itertools

# property -> (number of cases per worker, extra context)
PLAN = [
    ("c01", 250, {}), ("c02", 250, {}), ("c03", 150, {}), ("c04", 250, {}), ("c05", 25, {}), ("c06", 40, {}),
    ("c07", 40, {}), ("c08", 80, {}), ("c09", 50, {}), ("c10", 50, {}), ("c11", 60, {}), ("c12", 60, {}),
    ("c13", 80, {}), ("c14", 40, {}), ("c15", 40, {}), ("c16", 24, {}), ("c17", 48, {}), ("c18", 60, {}),
    ("c19", 12, {"long": []}), ("c20", 100, {}), ("c21", 60, {"ten": 1}), ("c22", 60, {"n1": 10, "n2": 5}), ("c23", 60, {}),
]


def stripped(c):
    """The same calls, without the functional expectations."""
    c.exps = [None] * len(c.cmds)
    c.final = None
    return c


def workload(rng, w, count, ctx):
    """count: percentage of PLAN."""
    only = ctx.get("only")
    for name, n, extra in PLAN:
        if only and name not in only:
            continue
        mod = importlib.import_module("props." + name)
        cx = dict(ctx)
        cx.update(extra)
        k = max(1, n * count // 100)
        it = mod.cases(rng, w, k, cx)
        if not ctx.get("nolimit"):      # not only the first ones
            it = list(itertools.islice(it, 20000))
            lim = 4 * k + 40
            if len(it) > lim:
                it = [it[i] for i in sorted(rng.sample(range(len(it)), lim))]
        for c in it:
            c.tags = ["%s" % name.upper()]
            if ctx.get("clear") and rng.random() < 0.3:
                c.c("clearall")
                c.tag("contexts cleared")
            yield c if ctx.get("judge") else stripped(c)


def keygens(rng, w, count, ctx):
    from props import c14, c15, c16
    for c in c14.gens(rng, w, count, ctx):
        c.tags = ["RSA key generation"]
        yield stripped(c)
    if w < 2:
        c = c15.keygen(rng, 0)
        c.tags = ["DSA key generation"]
        yield stripped(c)
    for c in c16.builtin(rng, w, 1, ctx):
        c.tags = ["ECDSA built-in curves"]
        yield stripped(c)
