#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
NA = {p: "pure function of its input: no schedule, clock, fault or I/O for a simulator to decide" for p in ("C21", "C22", "C23")}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 tools/check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": "Seeded search over complete simulated runs of the real server code (threads, clocks, sockets, files, TLS transport and process crashes under simulator control); every run is judged against a reference model. It samples: a clean batch is evidence, not proof. Trusted: the simulated kernel, the reference model and the clang instrumentation.",
    })
json.dump({"version": 1, "setup_cmd": "bash tools/build.sh harness", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks in /repo: the seams are the libc, pthread and OpenSSL symbols, redirected in the object files by tools/build.sh. All commits in /repo are fixes of genuine defects (known-findings.txt)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
