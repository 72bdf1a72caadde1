#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
DIFF = "runtime oracle over sanitized executions: every observed result compared with an independent reference"
T = {p["id"]: DIFF for p in props}
T.update({
    "C05": "runtime oracle over sanitized executions with controlled random streams",
    "C14": "runtime oracle over sanitized executions incl. forged and malformed inputs, decided by RFC 8017 in Python",
    "C15": "runtime oracle over sanitized executions: signing equation and acceptance decided in Python",
    "C16": "runtime oracle over sanitized executions: signing equation and acceptance decided in Python",
    "C17": "runtime oracle over sanitized executions: signing equation and acceptance decided in Python",
    "C24": "AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and an exact-size guarded allocator over hostile workloads",
    "C25": "fault injection at every allocation of every operation, under AddressSanitizer with result, leak and reuse monitors",
    "C26": "runtime monitor of context bytes and of the allocator around every clear call",
    "C27": "ThreadSanitizer plus comparison of concurrent, interleaved and solo executions",
    "C28": "runtime oracle executed on every build configuration under sanitizers",
    "C29": "offline statistical monitor over recorded histories of draws",
})
L = {"C25": "fault_enumeration"}
N = {p["id"]: "Every execution explored is judged by an oracle independent of the library; assumes the reference implementations "
              "in vlib/ref and the compilers' sanitizers. Coverage is the generated workload (see the evidence), not all inputs." for p in props}
N["C25"] = ("For each operation of the workload every single allocation and every tail of allocations is made to fail in turn "
            "(enumerated completely per scenario); scenarios are sampled.")
N["C24"] = "A clean run shows the absence of the violations the sanitizers detect, on the generated workload only."
N["C27"] = "Races are detected on the executed pairs of accesses; the interleavings are those of the scheduler plus scripted ones."
N["C29"] = "Statistical, with fixed seeds and bounds that make a false alarm less likely than 1e-9 per history."
NA = {}
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(here, "props", i.lower() + ".py")):
        NA[i] = "check not built yet"
        continue
    checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "technique": T[i], "level": L.get(i, "exploration"), "level_note": N[i],
                   "evidence_file": "evidence/%s.json" % i})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Every check builds its own instrumented copies of /repo's working tree in a scratch directory that it removes. "
              "No hooks in /repo are needed: everything is observed at the public API and through a wrapped allocator and random source."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", list(NA))
