from vlib import mix

RULE = ("The workloads of C01-C23 (all parts of the API; argument lengths around every block and digit border, all buffer "
        "alignments, exact-size buffers, aliased objects, prior garbage in destinations and on the stack) executed under "
        "AddressSanitizer + UndefinedBehaviorSanitizer (all of its undefined-behaviour checks) and under MemorySanitizer, "
        "with an allocator that moves every reallocated block, fills fresh and freed memory with patterns and counts "
        "live blocks after each case. Judged: any sanitizer report, crash, hang, leak or double release. Distinct by "
        "hash of all commands.")


def check(run):
    q = run.tier == "quick"
    run.sweep(mix.workload, run.bins("asanub"), 50 if q else 800, cpu=100, ctx={"clear": 1}, label="ub")
    run.sweep(mix.workload, run.bins("msan"), 30 if q else 500, cpu=100, ctx={"clear": 1}, label="msan")
    run.sweep(mix.keygens, run.bins("asanub"), 2 if q else 20, cpu=300, label="kg", batch=4)
    return run.finish("exploration", RULE, ["buffers have the sizes the interface documents; contexts are initialised before use"],
                      require=[p[0].upper() for p in mix.PLAN] + ["RSA key generation", "ECDSA built-in curves", "DSA key generation", "contexts cleared"])
