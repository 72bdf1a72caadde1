"""Runs generated cases on the instrumented library and judges what was observed."""
import hashlib, json, os, random, re, resource, subprocess, sys, time, traceback
import multiprocessing as mp

from . import build

VERIF = build.VERIF
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
NPROC = 8


class HarnessError(Exception):
    pass


def data_bytes(s):
    """Bytes denoted by the driver's data syntax."""
    if s == "-":
        return b""
    if s[0] == "~":
        n, seed = s[1:].split(":")
        n, x = int(n), (int(seed) * 2654435761 + 88172645463325252) & (2**64 - 1)
        out = bytearray()
        while len(out) < n:
            x ^= (x << 13) & (2**64 - 1)
            x ^= x >> 7
            x ^= (x << 17) & (2**64 - 1)
            out += x.to_bytes(8, "little")
        return bytes(out[:n])
    if s[0] == "=":
        n, b = s[1:].split(":")
        return bytes([int(b)]) * int(n)
    return bytes.fromhex(s)


def hx(b):
    return b.hex() if b else "-"


def mh(v):
    """Integer as the driver writes it."""
    return ("-%x" % -v) if v < 0 else "%x" % v


class Case:
    """A list of driver commands, each with the expected observation.

    An expectation is None (anything), a string (exact) or a function from the
    observed string to None (fine) or a text that says what is wrong."""
    __slots__ = ("cmds", "exps", "tags", "final", "info", "known", "drawn")

    def __init__(self, *tags):
        self.cmds, self.exps = [], []
        self.tags = list(tags)
        self.final = None       # judge of the whole list of observations
        self.info = None
        self.known = None       # id of a known finding this case demonstrates

    def c(self, cmd, exp=None):
        self.cmds.append(cmd)
        self.exps.append(exp)
        return self

    def tag(self, *t):
        self.tags += t
        return self

    def line(self, i):
        return "c%d %s" % (i, " ; ".join(self.cmds))

    def judge(self, outs):
        extra = outs[len(self.cmds):]
        if extra:
            return "after the case: " + " ".join(extra)[:200]
        if len(outs) != len(self.cmds):
            return "harness: %d observations for %d commands" % (len(outs), len(self.cmds))
        for cmd, e, o in zip(self.cmds, self.exps, outs):
            if e is None:
                continue
            if callable(e):
                m = e(o)
                if m:
                    return "%s -> %s: %s" % (cmd[:300], o[:300], m)
            elif e != o:
                return "%s -> observed %s expected %s" % (cmd[:300], diffpart(o, e), diffpart(e, o))
        if self.final:
            return self.final(outs)
        return None


def diffpart(a, b):
    if len(a) <= 200:
        return a
    k = 0
    while k < len(a) and k < len(b) and a[k] == b[k]:
        k += 1
    return "...%s... (differs at char %d of %d)" % (a[max(0, k - 20):k + 120], k, len(a))


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:hard_rss_limit_mb=6000:symbolize=1:malloc_fill_byte=165",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "MSAN_OPTIONS": "exitcode=99:halt_on_error=1:print_stats=0",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:report_signal_unsafe=0:history_size=4",
}


def san_env():
    e = dict(os.environ)
    e.update(SAN_ENV)
    return e


def summarise_report(err):
    lines = err.splitlines()
    keep = []
    for l in lines:
        if re.search(r"ERROR: |runtime error|WARNING: |SUMMARY|DRIVER|Assertion|Segm", l):
            keep.append(l.strip())
        elif re.match(r"\s*#[0-7] ", l) and len(keep) < 14:
            keep.append(re.sub(r"0x[0-9a-f]+ ", "", l.strip()))
        if len(keep) > 16:
            break
    return " / ".join(keep)[:1800]


# When a worker has seen a violation the others finish soon: the verdict cannot change any more.
FOUND = mp.get_context("fork").Value("d", 0.0)
SLOW = mp.get_context("fork").Value("d", 0.0)
GRACE = 15


class Stopped(Exception):
    pass


def found():
    with FOUND.get_lock():
        if not FOUND.value:
            FOUND.value = time.time()


def stopping():
    return FOUND.value and time.time() - FOUND.value > GRACE


def run_driver(binary, lines, wd, tag, cpu=20, wall=800):
    """Runs the driver on `lines`; returns (list of output lines, returncode, stderr)."""
    cf, of, ef = (os.path.join(wd, tag + x) for x in (".cases", ".out", ".err"))
    with open(cf, "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(ef, "wb") as e:
        p = subprocess.Popen([binary, cf, of, str(cpu)], env=san_env(), stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=e)
        t0 = time.time()
        while True:
            try:
                p.wait(1)
                break
            except subprocess.TimeoutExpired:
                pass
            if stopping() or time.time() - t0 > wall:
                p.kill()
                p.wait()
                if stopping():
                    raise Stopped()
                raise HarnessError("driver exceeded the wall-clock guard")
    with open(of, errors="replace") as f:
        outs = f.read().split("\n")
    if outs and outs[-1] == "":
        outs.pop()
    elif outs and p.returncode != 0:
        outs.pop()              # partial last line
    with open(ef, errors="replace") as f:
        err = f.read()
    m = re.search(r"^SLOWEST ([\d.]+)", err, re.M)
    if m and float(m.group(1)) > SLOW.value:
        with SLOW.get_lock():
            SLOW.value = max(SLOW.value, float(m.group(1)))
    for x in (cf, of, ef):
        os.unlink(x)
    return outs, p.returncode, err


class Violation(dict):
    pass


def run_cases(prop, cases, bins, wd, tag, cpu=20, max_crash=4):
    """Runs all cases in every variant; returns (violations, judged)."""
    viol, judged = [], [0]
    try:
        _run_cases(viol, judged, prop, cases, bins, wd, tag, cpu, max_crash)
    except Stopped:
        pass                    # what was seen so far counts
    return viol, judged[0]


def _run_cases(viol, judged, prop, cases, bins, wd, tag, cpu, max_crash):
    for name, binary in bins:
        start = 0
        crashes = 0
        while start < len(cases):
            lines = [cases[i].line(i) for i in range(start, len(cases))]
            outs, rc, err = run_driver(binary, lines, wd, tag + name, cpu)
            for k, o in enumerate(outs):
                c = cases[start + k]
                idt, _, rest = o.partition(" ")
                if idt != "c%d" % (start + k):
                    raise HarnessError("output out of step: %r" % o[:100])
                judged[0] += 1
                try:
                    m = c.judge(rest.split(" | "))
                except Exception:
                    m = "judge failed on %r:\n%s" % (rest[:300], traceback.format_exc()[-800:])
                if m:
                    viol.append(Violation(prop=prop, variant=name, kind="oracle", what=m, known=c.known,
                                          case=lines[k], observed=rest[:20000], info=c.info))
                    if not c.known:
                        found()
            if rc == 0 and len(outs) == len(lines):
                break
            if rc == 0:
                raise HarnessError("driver ended early")
            bad = start + len(outs)
            if rc == 3:
                raise HarnessError("driver error: " + err[-500:])
            if bad >= len(cases):
                raise HarnessError("driver failed after the last case: rc=%d %s" % (rc, err[-800:]))
            kind = "crash"
            what = "rc=%d %s" % (rc, summarise_report(err))
            ok = True
            if rc == 77:
                kind = "hang"
                o2, rc2, err2 = run_driver(binary, [cases[bad].line(bad)], wd, tag + name, cpu * 2)
                ok = rc2 == 77
                what = "no return within %d s of CPU time" % (cpu * 2)
                crashes = max_crash
            elif rc < 0 and rc in (-9, -15):
                raise HarnessError("driver was killed (rc=%d)" % rc)
            if ok:
                viol.append(Violation(prop=prop, variant=name, kind=kind, what=what, known=cases[bad].known,
                                      case=cases[bad].line(bad), observed="", info=cases[bad].info))
                if not cases[bad].known:
                    found()
            crashes += 1
            if crashes >= max_crash:
                break
            start = bad + 1
        if len(viol) > 60:
            break


def _worker(args):
    prop, gen, bins, wd, w, seed, count, batch, cpu, ctx = args
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        rng = random.Random("%s/%s/%d" % (seed, prop, w))
        viol, judged, ncase, ncmd = [], 0, 0, 0
        tags, hashes, samples = {}, set(), []
        it = gen(rng, w, count, ctx)
        done = False
        k = 0
        try:
            while not done:
                cases, size = [], 0
                for c in it:
                    cases.append(c)
                    size += sum(map(len, c.cmds))
                    if len(cases) >= batch or size > 8000000:
                        break
                else:
                    done = True
                if not cases:
                    break
                for c in cases:
                    ncase += 1
                    ncmd += len(c.cmds)
                    for t in c.tags:
                        tags[t] = tags.get(t, 0) + 1
                    hashes.add(hashlib.blake2b(" ; ".join(c.cmds).encode(), digest_size=8).digest())
                if len(samples) < 1 and cases:
                    samples.append(rng.choice(cases).line(0)[:600])
                v, j = run_cases(prop, cases, bins, wd, "w%d-%d-" % (w, k), cpu)
                viol += v
                judged += j
                k += 1
                if len(viol) > 30 or stopping():
                    break
        except Stopped:
            pass                # what was seen so far counts
        return dict(viol=viol, judged=judged, ncase=ncase, ncmd=ncmd, tags=tags,
                    hashes=hashes, samples=samples, err=None)
    except Exception:
        return dict(err=traceback.format_exc())


class Run:
    """Accumulates what one check observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = []
        self.errors = []
        self.judged = self.ncase = self.ncmd = 0
        self.tags, self.hashes, self.samples = {}, set(), []
        self.notes = {}
        self.tree = build.Tree()

    def bins(self, *names):
        out = []
        for n in names:
            if n not in self.tree.bins:
                self.tree.build(n)
            out.append((n, self.tree.bins[n]))
        return out

    def sweep(self, gen, bins, count, batch=300, cpu=20, ctx=None, label=None):
        """Eight workers, each generating `count` cases with gen(rng, worker, count, ctx)."""
        ctx = dict(ctx or {})
        ctx.setdefault("consts", self.consts())
        ctx.setdefault("tier", self.tier)
        jobs = [(self.prop + (":" + label if label else ""), gen, bins, self.tree.dir, w, self.seed,
                 count, batch, cpu, ctx) for w in range(NPROC)]
        return self._collect(jobs)

    def sweep_many(self, specs, batch=300, cpu=20):
        """specs: list of (gen, bins, count, ctx, label), one job each."""
        jobs = []
        for i, (gen, bins, count, ctx, label) in enumerate(specs):
            ctx = dict(ctx)
            ctx.setdefault("consts", self.consts())
            ctx.setdefault("tier", self.tier)
            jobs.append((self.prop + ":" + label, gen, bins, self.tree.dir, i, self.seed, count, batch, cpu, ctx))
        return self._collect(jobs)

    def _collect(self, jobs):
        if stopping():
            return 0
        idx = _register(jobs)       # before the fork
        with mp.get_context("fork").Pool(NPROC) as p:
            res = p.map(_call_worker, idx, chunksize=1)
        for r in res:
            if r["err"]:
                self.errors.append(r["err"])
                continue
            self.viol += r["viol"]
            self.judged += r["judged"]
            self.ncase += r["ncase"]
            self.ncmd += r["ncmd"]
            for t, n in r["tags"].items():
                self.tags[t] = self.tags.get(t, 0) + n
            self.hashes |= r["hashes"]
            self.samples += r["samples"]
        return sum(r.get("ncase", 0) for r in res)

    def one(self, cases, bins, cpu=20, label="x"):
        """A few explicit cases, in this process."""
        v, j = run_cases(self.prop, cases, bins, self.tree.dir, label, cpu)
        self.viol += v
        self.judged += j
        self.ncase += len(cases)
        for c in cases:
            self.ncmd += len(c.cmds)
            for t in c.tags:
                self.tags[t] = self.tags.get(t, 0) + 1
            self.hashes.add(hashlib.blake2b(" ; ".join(c.cmds).encode(), digest_size=8).digest())

    _consts = None

    def consts(self):
        if self._consts is None:
            self._consts = self.tree.constants()
        return self._consts

    def finish(self, level, rule, assumptions, require=()):
        """Writes the evidence, prints the verdict and returns the exit code."""
        missing = [t for t in require if not self.tags.get(t)]
        self.tree.close()
        known = load_known()
        fresh, seen = [], {}
        for v in self.viol:
            k = v.get("known")
            e = known.get(k) if k else None
            if e and e["property"] == self.prop and re.search(e["match"], v["kind"] + ": " + v["what"]):
                seen.setdefault(k, e)
            else:
                fresh.append(v)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "evaluations": self.ncase,
                "distinct_nontrivial": len(self.hashes),
                "rule": rule,
                "samples": self.samples[:4],
                "library_calls_scripted": self.ncmd,
                "case_executions_judged": self.judged,
                "slowest_case_cpu_s": round(SLOW.value, 3),
                "classes_seen": len(self.tags),
                "classes": dict(sorted(self.tags.items(), key=lambda t: (-t[1], t[0]))[:150]),
            },
            "assumptions": assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        ev["coverage"].update(self.notes)
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, e in seen.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        for v in fresh:
            v["build"] = self.tree.recipes.get(v["variant"])
        shown = set()
        n = 0
        for v in fresh:
            key = (v["variant"], v["kind"], re.sub(r"[0-9a-f]{3,}", "#", v["what"])[:60])
            if key in shown:
                continue
            shown.add(key)
            path = os.path.join(EVID, "replay", "%s-%d.json" % (self.prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  [%s/%s] %s" % (v["variant"], v["kind"], v["what"][:700]))
            print("  case: %s" % v["case"][:500])
            n += 1
            if n >= 8:
                break
        if fresh:
            print("%s: %d violating observations" % (self.prop, len(fresh)))
            return 1
        if self.errors:
            print("ERROR: harness: %s" % self.errors[0])
            return 2
        if missing:
            print("INCONCLUSIVE: never observed: %s" % missing)
            return 2
        if self.judged == 0:
            print("INCONCLUSIVE: nothing observed")
            return 2
        print("%s held on %d cases (%d executions judged, %d library calls scripted, %d classes) in %.1fs"
              % (self.prop, self.ncase, self.judged, self.ncmd, len(self.tags), time.time() - self.t0))
        return 0


# generators are closures in general: hand them to the forked workers by index
GENS = []


def _register(jobs):
    base = len(GENS)
    GENS.extend(jobs)
    return range(base, base + len(jobs))


def _call_worker(a):
    return _worker(GENS[a])


def load_known():
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        d = json.load(f)
    return {e["id"]: e for e in d.get("known", [])}
