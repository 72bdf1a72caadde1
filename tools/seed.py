#!/usr/bin/env python3
"""Planted bugs: builds /verif/seeded/<id> from tools/seed_specs.py, confirms each in a scratch copy of /repo and
runs the checks on it.

  seed.py make [ID...]    patch, build, tests, demo on both trees; keeps it when all is as required
  seed.py run  [ID...]    runs the property's quick check on a scratch copy with the patch
  seed.py table           prints the markdown table of results
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
BASE = "99a1ebc"
DEMO_SH = """#!/bin/bash
# Run in the repository's directory after the build; 0 = behaves, 1 = broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
%s
timeout 120 "$t/demo"
"""
PLAIN = 'gcc -w -O1 -Iinclude -Isrc "$d/demo.c" libcry.a -o "$t/demo" || exit 2'
LIB = 'find src -name "*.c"'
ASAN = ('gcc -w -O1 -g -fsanitize=address -fno-sanitize-recover=all -DCRY_MPI_INV_EUCLID -DCRY_MPI_MUL_COMBA '
        '-DCRY_MPI_MUL_KARATSUBA -DCRY_MPI_MUL_TOOM3 -Iinclude -Isrc "$d/demo.c" $(find src -name "*.c") '
        '-o "$t/demo" || exit 2')
HEAD = "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n"


def sh(cmd, cwd=None, timeout=1200, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(d, "repo")
    sh("cp -a /repo %s" % r)
    for f in ("build.sh", "test.sh", "run_tests.py"):
        t = open("/opt/vp/" + f).read().replace("/repo", r).replace("/opt/vp/", d + "/")
        open(os.path.join(d, f), "w").write(t)
    return d, r


def tests(d):
    sh("bash %s/test.sh %s/o.json" % (d, d))
    o = json.load(open(d + "/o.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(o["passed"]))


def demo(folder, r):
    try:
        return sh("bash %s/demo.sh" % folder, cwd=r, timeout=300)
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def own_lines(r, diff):
    """Removed lines that this work's own commits added."""
    bad, f = [], None
    for h in re.split(r"^(?=diff --git)", diff, flags=re.M):
        m = re.search(r"^--- a/(\S+)", h, flags=re.M)
        if not m:
            continue
        f = m.group(1)
        n = 0
        for l in h.splitlines():
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m.group(1))
            elif l.startswith("-") and not l.startswith("---"):
                _, b = sh("git blame -L%d,%d %s.. -- %s" % (n, n, BASE, f), cwd=r)
                if not b.startswith("^"):
                    bad.append(l)
                n += 1
            elif l.startswith(" "):
                n += 1
    return bad


def make(s):
    d, r = copy()
    try:
        out = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/demo.c", "w").write(HEAD + s["demo"].strip() + "\n")
        open(out + "/demo.sh", "w").write(DEMO_SH % s.get("cc", PLAIN))
        rc, o = sh("bash %s/build.sh" % d)
        a, ao = demo(out, r)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                raise ValueError("%s: %d occurrences of %r in %s" % (s["id"], t.count(old), old, f))
            open(p, "w").write(t.replace(old, new))
        _, diff = sh("git diff", cwd=r)
        open(out + "/patch.diff", "w").write(diff)
        missing = tests(d)
        b, bo = demo(out, r)
        bad = own_lines(r, diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        ok = a == 0 and b == 1 and not missing and not bad
        why = "" if ok else " clean demo %d %s; patched demo %d %s; tests %s; own lines %s" % (
            a, ao[-300:], b, bo[-300:], missing[:4], bad)
        if not ok:
            shutil.rmtree(out, ignore_errors=True)
        return s["id"], ok, why
    except Exception as e:
        return s["id"], False, repr(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(i, prop=None, seeds=(1,)):
    d, r = copy()
    try:
        folder = os.path.join(V, "seeded", i)
        meta = json.load(open(folder + "/meta.json"))
        rc, o = sh("git apply %s/patch.diff" % folder, cwd=r)
        assert rc == 0, o
        res = []
        for sd in seeds:
            env = dict(os.environ, VERIF_REPO=r, VERIF_SEED=str(sd), VERIF_TIER="quick",
                       VERIF_EVIDENCE=os.path.join(d, "ev"))
            rc, o = sh("%s/check %s" % (V, prop or meta["property"]), env=env)
            line = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + (prop or meta["property"]))]
            res.append("caught" if rc == 1 and line else "missed" if rc == 0 else "rc%d %s" % (rc, o[-300:]))
        return i, meta["property"], res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def table():
    res = json.load(open(os.path.join(V, "tools", "seed_results.json")))
    print("| planted bug | property | needs | quick check |\n|---|---|---|---|")
    for i in sorted(os.listdir(os.path.join(V, "seeded"))):
        p = os.path.join(V, "seeded", i, "meta.json")
        if not os.path.exists(p):
            continue
        m = json.load(open(p))
        print("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], res.get(i, "not run")))


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        import seed_specs
        specs = [s for s in seed_specs.SPECS if not ids or s["id"] in ids]
        if not ids:
            specs = [s for s in specs if not os.path.exists(os.path.join(V, "seeded", s["id"]))]
        with ThreadPoolExecutor(4) as ex:
            for i, ok, why in ex.map(make, specs):
                print(i, "kept" if ok else "DROPPED", why, flush=True)
    elif cmd == "run":
        ids = ids or sorted(os.listdir(os.path.join(V, "seeded")))
        f = os.path.join(V, "tools", "seed_results.json")
        with ThreadPoolExecutor(2) as ex:
            for i, p, res in ex.map(run, ids):
                print(i, p, res, flush=True)
                all_ = json.load(open(f)) if os.path.exists(f) else {}
                all_[i] = res[0] if res[0] in ("caught", "missed") else "no answer"
                json.dump(all_, open(f, "w"), indent=1, sort_keys=True)
    else:
        table()


if __name__ == "__main__":
    main()
