import hashlib, os, random, subprocess
import multiprocessing as mp
from vlib import mix, engine
from vlib.engine import Violation, HarnessError, run_driver, san_env, summarise_report

RULE = ("Cases of all parts of the library except the random generators (integers, curves, ciphers, modes, MACs, hashes, "
        "CRCs, public keys, utilities); operations that need random bytes get a stream of their own, put in place of the shared generator. Each is run alone in a sequence, in the reverse sequence, interleaved call by "
        "call with 1-5 others in one thread (order drawn from a seed) and by 2-6 concurrent threads, with optimisation and "
        "under ThreadSanitizer (different cases in the threads; the same ones in two, in a build without optimisation). Judged: observations equal to those of the sequence; no data race, crash or hang. Distinct "
        "by hash of all commands; evidence gives calls executed while another thread's call was in progress.")

GLOBAL = {"prng", "lseed", "lprng", "print", "fail", "failoff", "live", "clearall", "upbig"}
DRAW = {"rand", "rrange", "prime", "isprime", "kgen", "sign", "esign", "sv", "esv", "renc", "red", "rsv", "hill"}


def usable(c, rng):
    """Random bytes come from a stream of the case's own, in place of the library's generator (which is shared state)."""
    names = [x.split(" ", 1)[0] for x in c.cmds]
    if GLOBAL.intersection(names) or len(names) > 250:
        return False
    if "seed" in names or DRAW.intersection(names):
        c.cmds = ["rndgen %x" % rng.getrandbits(60)] + [x for x, k in zip(c.cmds, names) if k != "seed"]
        c.exps = [None] * len(c.cmds)
        c.drawn = True
    return True


def run_many(binary, lines, wd, tag, cpu, threads, group):
    """Outputs in the order of the lines (missing ones None), return code, stderr, (calls, overlapped)."""
    cf, of = os.path.join(wd, tag + ".cases"), os.path.join(wd, tag + ".out")
    with open(cf, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        r = subprocess.run([binary, cf, of, str(cpu), str(threads), str(group)], env=san_env(), stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=800)
    except subprocess.TimeoutExpired:
        raise HarnessError("driver exceeded the wall-clock guard")
    outs, st = [None] * len(lines), [0, 0]
    for t in range(threads) if threads else (None,):
        p = of if t is None else "%s.%d" % (of, t)
        if not os.path.exists(p):
            continue
        got = open(p, errors="replace").read().split("\n")
        got.pop()
        os.unlink(p)
        for k, o in enumerate(got):
            if o.startswith("#"):
                a, b = o[1:].split()
                st[0] += int(a)
                st[1] += int(b)
            else:
                outs[k if t is None else k * threads + t] = o
    os.unlink(cf)
    return outs, r.returncode, r.stderr.decode(errors="replace"), st


def worker(a):
    seed, w, rounds, count, rel, tsan, tsan0, wd, ctx = a
    res = dict(viol=[], tags={}, hashes=set(), ncase=0, judged=0, ncmd=0, over=0, calls=0, groups=0, drawn=0, dropped=0, err=None, samples=[])
    try:
        for rd in range(rounds):
            rng = random.Random("%s/C27/%d/%d" % (seed, w, rd))
            cases = [c for c in mix.workload(rng, w, count, ctx) if usable(c, rng)]
            if rng.random() < 0.4:
                rng.shuffle(cases)
            else:       # similar ones side by side, kinds in random order
                kinds = {}
                for c in cases:
                    kinds.setdefault(c.tags[0], []).append(c)
                ks = list(kinds)
                rng.shuffle(ks)
                for k in ks:
                    rng.shuffle(kinds[k])
                cases = [c for k in ks for c in kinds[k]]
            tag = "t%d-%d-" % (w, rd)

            def alone():
                """Runs the cases in sequence, with two states of the library's own generator."""
                for _ in range(8):
                    lines = [c.line(i) for i, c in enumerate(cases)]
                    refs = []
                    for sd in "01", "02":
                        ref, rc, err = run_driver(rel, ["s seed " + sd] + lines, wd, tag, 60)
                        if rc == 3:
                            raise HarnessError(err[-300:])
                        if rc != 0:
                            del cases[len(ref) - 1]     # fails alone: the business of the other checks
                            break
                        refs.append(ref[1:])
                    else:
                        return lines, refs
                return None, None
            lines, refs = alone()
            if lines is None:
                continue
            keep = [i for i in range(len(cases)) if refs[0][i] == refs[1][i] or not getattr(cases[i], "drawn", 0)]
            if len(keep) < len(cases):      # these draw from the library's generator after all
                res["dropped"] += len(cases) - len(keep)
                cases = [cases[i] for i in keep]
                lines, refs = alone()
                if lines is None:
                    continue
            ref = refs[0]
            res["drawn"] += sum(getattr(c, "drawn", 0) for c in cases)
            res["ncase"] += len(cases)
            for c in cases:
                res["ncmd"] += len(c.cmds)
                res["tags"][c.tags[0]] = res["tags"].get(c.tags[0], 0) + 1
                res["hashes"].add(hashlib.blake2b(" ; ".join(c.cmds).encode(), digest_size=8).digest())
            if not res["samples"]:
                res["samples"].append(lines[rng.randrange(len(lines))][:600])
            plan = [("rel", rel, 0, rng.choice((2, 3))), ("rel", rel, 0, rng.choice((4, 5, 6))), ("rel", rel, 0, "rev"),
                    ("rel", rel, rng.choice((4, 6)), rng.choice((0, -1))), ("tsan", tsan, rng.choice((2, 3, 4)), 0), ("tsan0", tsan0, 2, "dup")]
            for name, b, th, gr in plan:
                ls, want = lines, ref
                if gr == "dup":         # each command in both threads at about the same time
                    ls, want, gr = [x for x in lines for _ in (0, 1)], [x for x in ref for _ in (0, 1)], -1
                if gr == "rev":
                    ls, want, gr = lines[::-1], ref[::-1], 0
                outs, rc, err, st = run_many(b, ls, wd, tag, 200, th, gr)
                how = "%d threads" % th if th else "interleaved call by call in groups of %d" % gr if gr else "in reverse order"
                res["calls"] += st[0]
                res["over"] += st[1]
                res["groups"] += (len(ls) + gr - 1) // gr if gr > 0 else 0
                if rc == 3:
                    raise HarnessError(err[-300:])
                bad = None
                if rc in (-9, -15):
                    raise HarnessError("driver was killed (rc=%d)" % rc)
                if rc != 0:
                    kind = "race" if "data race" in err else "hang" if rc == 77 else "crash"
                    if rc == 77:
                        o2, rc2, _, _ = run_many(b, ls, wd, tag, 200, th, gr)
                        if rc2 == 0:
                            continue
                    bad = "%s: %s rc=%d %s" % (how, kind, rc, summarise_report(err))
                    k = next((i for i, o in enumerate(outs) if o is None), 0)
                else:
                    kind = "oracle"
                    for k, (o, e) in enumerate(zip(outs, want)):
                        res["judged"] += 1
                        if o != e:
                            bad = "%s: observed %s, alone %s" % (how, engine.diffpart(o or "nothing", e), engine.diffpart(e, o or ""))
                            break
                if bad:
                    g0 = (k // gr * gr) if gr > 0 else 0
                    res["viol"].append(Violation(prop="C27", variant=name, kind=kind, what=bad, known=None, case=ls[k],
                                                 observed="", info=None, threads=th, group=gr,
                                                 cases=ls[g0:g0 + gr] if gr > 0 else ls[max(0, (k - 60) & ~1):k + 60]))
                    if len(res["viol"]) > 4:
                        return res
    except Exception:
        import traceback
        res["err"] = traceback.format_exc()
    return res


def check(run):
    q = run.tier == "quick"
    rel, tsan, tsan0 = (b for _, b in run.bins("rel", "tsan", "tsan0"))
    ctx = {"consts": run.consts(), "tier": run.tier}
    jobs = [(run.seed, w, 2 if q else 20, 45 if q else 80, rel, tsan, tsan0, run.tree.dir, ctx) for w in range(8)]
    with mp.get_context("fork").Pool(8) as p:
        out = p.map(worker, jobs, chunksize=1)
    n = dict(calls=0, over=0, groups=0, drawn=0, dropped=0)
    for r in out:
        if r["err"]:
            run.errors.append(r["err"])
        run.viol += r["viol"]
        run.ncase += r["ncase"]
        run.ncmd += r["ncmd"]
        run.judged += r["judged"]
        run.hashes |= r["hashes"]
        run.samples += r["samples"]
        for t, k in r["tags"].items():
            run.tags[t] = run.tags.get(t, 0) + k
        for k in n:
            n[k] += r[k]
    run.notes = {"calls_in_threads": n["calls"], "calls_overlapping_another_thread": n["over"], "groups_interleaved": n["groups"],
                 "cases_with_a_random_stream_of_their_own": n["drawn"], "left_out_because_they_use_the_shared_generator": n["dropped"]}
    if not run.viol and n["over"] < 1000:
        run.errors.append("only %d calls overlapped" % n["over"])
    return run.finish("exploration", RULE, ["objects are not shared between threads; the random generators are not used concurrently"],
                      require="C01 C02 C03 C04 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18 C19 C20 C21 C22".split())
