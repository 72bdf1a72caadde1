#!/usr/bin/env python3
"""Random small changes to the library: which of those that pass the existing tests do the checks report?

  mutate.py gen N SEED OUT.json       samples N changes, keeps those that build and pass the tests
  mutate.py run IN.json OUT.json      runs the checks mapped to the changed file until one reports it
"""
import json, os, random, re, shutil, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seed import sh, copy, tests

FILES = {
    "mpi_add": "C01", "mpi_sub": "C01", "mpi_mul": "C01", "mpi_sqr": "C01", "mpi_shl": "C01", "mpi_shr": "C01", "mpi_abs": "C01",
    "mpi_cmp": "C01", "mpi_exp": "C01 C03", "mpi_div": "C02", "mpi_sqrt": "C01 C02", "mpi_mod_exp": "C03", "mpi_gcd": "C03", "mpi_lcm": "C03",
    "mpi_inv": "C03", "mpi_str": "C04", "mpi_bin": "C04", "mpi_print": "C04", "mpi_core": "C01 C04 C02", "mpi_list": "C25", "mpi_prime": "C05",
    "mpi_rand": "C23 C29 C05", "mpi_pvt": "C01 C02 C28", "ecp": "C06", "aes_wrap": "C19", "aes.c": "C07", "des": "C07", "cbc": "C08", "cfb": "C08",
    "ctr": "C08", "gcm": "C09", "trivium": "C10", "arc4": "C10", "md5": "C11", "sha": "C11", "hmac": "C12", "cmac": "C12", "crc": "C13", "rsa": "C14",
    "ecdsa": "C16", "dsa": "C15", "elgamal": "C17", "ecdh": "C18", "dh": "C18", "base64": "C20", "affine": "C21", "hill": "C21", "memxor": "C22",
    "prng": "C23", "misc": "C26 C07 C11",
}
EXTRA = {"src/mpi": "C25 C28", "src/ecp": "C25 C28", "src/crypt": "C26 C25", "src/hash": "C26", "src/misc": "C24", "src/prng": "C29"}


def mapped(f):
    b = os.path.basename(f)
    for k, v in FILES.items():
        if b.startswith(k):
            return v.split()
    return []


def code_lines(text):
    """Yields (offset, line) of lines that carry code."""
    t = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group()), text, flags=re.S)
    t = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m.group()) - 2) + '"', t)
    off, depth = 0, 0
    for l in t.split("\n"):
        if depth > 0 and not l.lstrip().startswith("#") and l.count("0x") < 4 and l.count(",") < 7:
            yield off, l
        depth += l.count("{") - l.count("}")
        off += len(l) + 1


OPS = [(r"(?<![<>=!+\-])<(?![<=])", ["<="]), (r"<=", ["<", "!="]), (r"(?<![\->=])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]),
       (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<![+])\+(?![+=])", ["-"]), (r"(?<![\-])-(?![\->=])", ["+"]),
       (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\^=", ["|=", "="]), (r"\|=", ["=", "&="]), (r"<<", [">>"]), (r">>", ["<<"]),
       (r"(?<![\w.])\d+(?![\w.])", ["+1", "-1", "0"]), (r"\^(?!=)", ["|"]), (r"(?<!&)&(?!&)(?=\s)", ["|"]), (r"\+\+", ["--"]),
       (r"!(?!=)", [""])]


def sites(text):
    out = []
    for off, l in code_lines(text):
        for pat, reps in OPS:
            for m in re.finditer(pat, l):
                for r in reps:
                    if r in ("+1", "-1") and m.group().isdigit():
                        r = str(int(m.group()) + int(r))
                    if r == m.group():
                        continue
                    out.append((off + m.start(), off + m.end(), r))
        if re.match(r"^\s+[\w>\.\[\]\-\(\)\*]+.*;\s*$", l) and not re.match(r"^\s+(CRY_ASSERT|va_|NOP|return|goto|break|const|static|unsigned|int|size_t|uint|char|cry_mpi |struct|void|else)", l):
            i = off + len(l) - len(l.lstrip())
            out.append((i, off + len(l.rstrip()), ";"))
        m = re.search(r"\bif \((.*)\)( \{)?\s*$", l)
        if m and m.group(1).count("(") == m.group(1).count(")"):
            out.append((off + m.start(1), off + m.end(1), "0"))
            out.append((off + m.start(1), off + m.end(1), "1"))
    return out


def test_one(a):
    n, f, (i, j, r) = a
    d, repo = copy()
    try:
        p = os.path.join(repo, f)
        t = open(p).read()
        open(p, "w").write(t[:i] + r + t[j:])
        _, diff = sh("git diff -U1", cwd=repo)
        try:
            rc, o = sh("bash %s/build.sh" % d, timeout=60)
            if rc:
                return None
            if tests(d):
                return None
        except Exception:
            return None
        return {"id": "m%d" % n, "file": f, "diff": diff}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen(n, seed, out, only=None):
    rng = random.Random(seed)
    per = {}
    for b, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            if not f.endswith((".c", ".h")) or "curves" in f or f == "version.c":
                continue
            p = os.path.relpath(os.path.join(b, f), "/repo")
            if only and not re.search(only, p):
                continue
            per[p] = sites(open("/repo/" + p).read())
    tot = sum(len(v) ** 0.7 for v in per.values())
    todo = []
    for f in sorted(per):
        k = max(1, round(n * len(per[f]) ** 0.7 / tot)) if per[f] else 0
        todo += [(f, s) for s in rng.sample(per[f], min(k, len(per[f])))]
    rng.shuffle(todo)
    print(len(todo), "of", sum(map(len, per.values())), flush=True)
    kept = []
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for x, r in enumerate(ex.map(test_one, [(i, f, s) for i, (f, s) in enumerate(todo)])):
            if r:
                kept.append(r)
                json.dump(kept, open(out, "w"), indent=1)
    print("survive tests:", len(kept))


def run(inp, out):
    ms = json.load(open(inp))
    res = json.load(open(out)) if os.path.exists(out) else {}
    for m in ms:
        if m["id"] in res:
            continue
        d, r = copy()
        try:
            open(d + "/p.diff", "w").write(m["diff"])
            rc, o = sh("git apply %s/p.diff" % d, cwd=r)
            if rc:
                print(m["id"], "does not apply", flush=True)
                continue
            got = None
            first = mapped(m["file"])
            extra = " ".join(v for k, v in EXTRA.items() if m["file"].startswith(k)).split()
            for k in first + [e for e in extra if e not in first]:
                env = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=d + "/ev")
                try:
                    rc, o = sh("%s/check %s" % (V, k), env=env, timeout=900)
                except Exception:
                    got = k + " timeout"
                    break
                if rc == 1:
                    got = k
                    break
                if rc:
                    got = k + " rc%d %s" % (rc, o[-200:])
                    break
            res[m["id"]] = dict(m, caught=got, first=first)
            json.dump(res, open(out, "w"), indent=1)
            print(m["id"], m["file"], got, flush=True)
            if not got:
                print(m["diff"], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5] if len(sys.argv) > 5 else None)
    else:
        run(sys.argv[2], sys.argv[3])
