from vlib import mix
from vlib.engine import Case

RULE = ("The histories of the functional checks cut at a random call (so in any state: fresh, keyed, in mid-message, "
        "finished, after errors, re-keyed), then every live context, integer, point and group is cleared: a monitor reads "
        "every byte of the context and of the cipher context below a mode (each field of integers), the wrapped allocator "
        "counts live blocks, and everything is cleared once more. Plain and optimised builds. Classes: type of the object "
        "cleared. Distinct by hash of all commands.")


def flags(o):
    if o == "-":
        return None
    for x in o.split(","):
        t, _, f = x.partition(":")
        if f.strip("z"):
            return "%s is not zero after its clear call" % t
    return None


def cases(rng, w, count, ctx):
    for c in mix.workload(rng, w, count, ctx):
        full = c
        k = rng.randrange(1, len(full.cmds) + 1) if rng.random() < 0.8 else len(full.cmds)
        c = Case()
        for cmd in full.cmds[:k]:
            c.c(cmd)
        c.c("clearall", flags)
        c.c("live", "0")
        for cmd in c.cmds:
            f = cmd.split()
            if f[0] == "ci" and f[2] not in ("hmac", "cmac"):
                c.tag("clear " + f[2] + ("-" + f[3] if len(f) > 3 else ""))
            elif f[0] == "kinit":
                c.tag("clear " + f[2])
            elif f[0] in ("ms", "ps", "gset", "gload"):
                c.tag("clear " + {"m": "mpi", "p": "point", "g": "group"}[f[0][0]])
        c.tags = sorted(set(c.tags))
        yield c


KINDS = ("aes des cbc-aes cbc-des ctr-aes ctr-des cfb-aes cfb-des gcm-aes arc4 triv md5 sha1 sha256 sha512 sha384 "
         "rsa dsa ecdsa elg dh ecdh mpi point group").split()


ONLY = ("c02", "c06", "c07", "c08", "c09", "c10", "c11", "c14", "c15", "c16", "c17", "c18")


def check(run):
    q = run.tier == "quick"
    run.sweep(cases, run.bins("asan", "rel"), 80 if q else 700, cpu=60, ctx={"only": ONLY})
    return run.finish("exploration", RULE, ["memory that has been given back to the allocator is not inspected",
                                            "HMAC, CMAC, CRC, Hill and Affine contexts have no clear call"],
                      require=["clear " + k for k in KINDS])
