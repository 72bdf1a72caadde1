#!/usr/bin/env python3
"""Hand-written trial changes (id, property, [(file, old, new)...]): which that pass the tests does the property's quick check report?

  trial.py FILE.py OUT.json [IDs]     FILE.py defines T
"""
import json, os, runpy, shutil, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seed import sh, copy, tests


def prepare(t):
    id, prop, edits = t
    d, repo = copy()
    for f, a, b in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(a) < 1:
            return id, "no match in " + f, d, None
        open(p, "w").write(s.replace(a, b, 1))
    rc, o = sh("git diff", cwd=repo)
    try:
        rc, o = sh("bash %s/build.sh" % d, timeout=60)
        if rc:
            return id, "build: " + o[-300:], d, None
        bad = tests(d)
        if bad:
            return id, "tests: " + str(bad)[:120], d, None
    except Exception as e:
        return id, "exception %s" % str(e)[:100], d, None
    return id, None, d, repo


def main(src, out, ids):
    T = runpy.run_path(src)["T"]
    res = json.load(open(out)) if os.path.exists(out) else {}
    todo = [t for t in T if (not ids and t[0] not in res) or t[0] in ids]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for t, (id, why, d, repo) in zip(todo, ex.map(prepare, todo)):
            if why:
                r = "DROP " + why
            else:
                env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=d + "/ev")
                r = []
                for k in t[1].split():
                    try:
                        rc, o = sh("%s/check %s" % (V, k), env=env, timeout=900)
                    except Exception:
                        rc = "timeout"
                    r.append("%s=%s" % (k, rc))
                    if rc == 1:
                        break
                r = " ".join(r)
            res[id] = r
            json.dump(res, open(out, "w"), indent=1)
            print(id, r, "" if r.endswith("=1") or r.startswith("DROP") else "   <<<<<< MISSED", flush=True)
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], sys.argv[3:])
