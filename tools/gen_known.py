#!/usr/bin/env python3
"""Fills the "fixed" list of known-findings.json from the fix commits in /repo."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = {
    "2f53858": "C28", "5557bc7": "C25",}
for l in """C01 a2ec74f 28ebfa2
C02 8572bf3
C03 b426819 4a9f118 3f74fa0
C28 9182a51 07212fe
C04 939dda0 d1f76d7 ca69cf3 313f3fb
C05 a5240b9 7aa3fb1 6f467cb
C06 d73e103 6504e8e
C25 e9dd5ba f2055f5 56a0d2c 6121cbd 9e9a126
C07 c24f4f0
C08 426f489 fdef8ba 8a1b4fd 07f2851
C09 dd2cd08
C11 7efa242 ac09007
C19 e9def27
C20 d226e24 1794370
C23 fb3ea85 46190b8
C22 bb4cc95
C21 1ce2dfa
C14 fbcba91 477a78d 4eb6c09 c52e9a1 301b884 40d55ac e4feff1
C15 d77908d f924780 a7158b0 aaba920
C16 d6fc5cf 7132efb b6eb4e9
C17 16f2e22 45f30c1
C29 160467d dfc2b3b
C24 fb92d4d c089c2b""".splitlines():
    p, *cs = l.split()
    for c in cs:
        P[c] = p
path = os.path.join(here, "known-findings.json")
d = json.load(open(path))
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--grep=^fix:", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    out.append("fixed: property=%s %s %s" % (P[h], h, s.removeprefix("fix: ")))
d["fixed"] = out
json.dump(d, open(path, "w"), indent=1)
print(len(out))
